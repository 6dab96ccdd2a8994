#!/bin/bash
# inwt.sh DIR CMD...: runs a command in a private mount and network namespace in which the scratch copy DIR appears as /repo
# (for planting bugs without touching /repo)
W=$1; shift
export W
exec unshare -Urmn bash -c 'mount --bind "$W" /repo && (ip link set lo up 2>/dev/null || ifconfig lo up); cd /repo; exec "$@"' bash "$@"
