import sys
sys.path.insert(0,'/verif')
from vf.facts import load
import vf.show as s
F=load("tokio")
for b in list(F.bodies.values()):
    if sys.argv[1] in b.path: s.body(b)
