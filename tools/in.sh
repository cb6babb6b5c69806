#!/bin/bash
# in.sh CMD: run CMD in /verif with VERIF_SRC and REPO_SRC bound to /verif and /repo (development only).
w=$(mktemp -d /tmp/inXXXXXX)
cp -a /opt/clawpack $w/clawpack
unshare -m bash -c "mount --bind ${REPO_SRC:-/repo} /repo && mount --bind ${VERIF_SRC:-/verif} /verif && mount --bind $w/clawpack /opt/clawpack && cd /verif && $*"
rc=$?
rm -rf "$w"
exit $rc
