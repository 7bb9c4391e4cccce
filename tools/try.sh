#!/bin/bash
# Development only: try.sh DIR 'PROPS' 'SEEDS'   run the checks against a scratch copy DIR of /repo
# (build: harness with the module replaced). Prints which property is violated.
. /opt/vp/env.sh
export TZ=UTC
dir=$1; props=$2; seeds=${3:-1}
w=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf $w' EXIT
cp -r /verif/harness $w/h; mkdir $w/root; cp /verif/known_findings.txt $w/root
sed -i "s|=> /repo|=> $dir|" $w/h/go.mod
(cd $w/h && CGO_ENABLED=0 go build -o $w/pbt . ) || { echo BUILD-FAILED; exit 3; }
(cd $w/h && CGO_ENABLED=0 go build -o $w/example github.com/idoall/stockindicator) && export VERIF_EXAMPLE=$w/example
[ -n "$props" ] || props=$($w/pbt -list)
for p in $props; do for s in $seeds; do
 b=$w/pbt
 if [ $p = C04 ] && [ -z "$NORACE" ]; then (cd $w/h && go build -race -o $w/pbtr .); b=$w/pbtr; fi
 o=$(TMPDIR=$w $b -prop $p -seed $s -root $w/root ${X:-} 2>&1); rc=$?
 if [ $rc = 1 ]; then echo "CAUGHT $p seed $s: $(echo "$o" | sed -n '/ case /{n;p;}' | head -1 | cut -c1-${W:-150})"; [ -n "$V" ] && echo "$o"; elif [ $rc != 0 ]; then echo "ERROR $p seed $s rc $rc: $(echo "$o" | head -5)"; elif [ -n "$Q" ]; then echo "quiet $p seed $s"; fi
done; done
