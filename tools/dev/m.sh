# usage: m.sh PATCHFILE PROP...  : runs checks on a patched copy
set -e
D=/tmp/m; mkdir -p $D
if [ ! -d $D/repo ]; then cp -a /repo $D/repo; fi
if [ ! -d $D/cache ]; then cp -a /verif/.cache $D/cache; fi
cd $D/repo; git checkout -q -- . ; git apply "$1"; shift
cd /verif; VF_REPO=$D/repo VF_CACHE=$D/cache VF_EVID=$D/evid python3 -m vf.check "$@" 2>&1 | tail -${TAIL:-8} | cut -c1-300
cd $D/repo; git checkout -q -- .
