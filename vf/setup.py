"""Builds the driver and compiles the dependencies of /repo for both features."""
import sys

from .facts import BuildError, FEATURES, load_all

try:
    F = load_all(list(FEATURES))
except BuildError as e:
    print(e)
    sys.exit(1)
print({k: len(v.bodies) for k, v in F.items()})
