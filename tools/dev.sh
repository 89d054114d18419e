#!/bin/bash
# bash tools/dev.sh COMMAND... : run a command with /tmp/dev (a clone of /repo in which fixes are developed) mounted over /repo
exec unshare -m bash -c 'mount --bind /tmp/dev /repo && cd /verif && exec "$@"' x "$@"
