#!/bin/bash
# iso.sh NAME CMD...: runs CMD in a mount namespace where /repo, /verif and /tmp are copies of
# their own (under /var/tmp/iso-NAME, kept until removed by hand), for sweeps beside other work.
set -e
n=$1; shift
d=/var/tmp/iso-$n
mkdir -p "$d/tmp"; chmod 1777 "$d/tmp"
[ -d "$d/repo" ] || cp -a /repo "$d/repo"
[ -d "$d/verif" ] || cp -a /verif "$d/verif"
rsync -a --delete --exclude target --exclude build --exclude evidence --exclude .git /verif/ "$d/verif/" 2>/dev/null || cp -a /verif/. "$d/verif/"
exec unshare -m bash -c 'mount --bind "$0/repo" /repo; mount --bind "$0/verif" /verif; mount --bind "$0/tmp" /tmp; cd /verif; shift 0; "$@"' "$d" "$@"
