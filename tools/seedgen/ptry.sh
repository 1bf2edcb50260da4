#!/bin/bash
# usage: ptry.sh SEED-ID... : like "gen.py try", but each seed in a mount namespace of its own over a copy of /repo,
# PAR (default 2) at a time.
one() {
  S=$(mktemp -d /tmp/ptry.XXXXXX)
  mkdir $S/tmp $S/logs $S/verif && cp -a /repo $S/repo
  unshare -m bash -c "
    mount --bind $S/repo /repo; mount --bind $S/logs /opt/vp/logs; cp /verif/tools/seedgen/stable.sh $S/tmp/rt.sh
    cp -a /verif/. $S/verif/; mount --bind $S/verif /verif; mount --bind $S/tmp /tmp
    cd /verif/tools/seedgen && python3 gen.py try $1"
  rm -rf "$S"
}
export -f one
printf '%s\n' "$@" | xargs -P ${PAR:-2} -I{} bash -c 'one {}'
