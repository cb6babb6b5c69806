#!/bin/bash
# try.sh ID [args of plant.py]: plant.py in private copies of /repo and /verif (own mount namespace), so that several
# can run at once and /repo stays as it is. Development only; no check uses it.
w=$(mktemp -d /tmp/tryXXXXXX)
cp -a ${REPO_SRC:-/repo} $w/repo; cp -a ${VERIF_SRC:-/verif} $w/verif; cp -a /opt/clawpack $w/clawpack
unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && mount --bind $w/clawpack /opt/clawpack && cd /verif && python3 tools/plant.py $*"
rm -rf "$w"
