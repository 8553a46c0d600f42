#!/bin/bash
# mkseed.sh <name> <property>: takes the diff of the scratch worktree /tmp/seed (made by tools/scratch.sh) and
# /tmp/demo.go as the demonstration, and lays out /verif/seeded/<name>.
set -eu
N="$1"; D=/verif/seeded/$N; H=/verif/harness
mkdir -p $D/src/demo
git -C /tmp/seed diff > $D/patch.diff
rm -rf $D/src/kproto $D/src/fake
cp -r $H/kproto $H/fake $D/src/
cp $H/go.mod $H/go.sum $D/src/
cp /tmp/demo.go $D/src/demo/main.go
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
W="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf -- "$W"' EXIT
cp -r "$HERE/src" "$W/src" || exit 3
cd "$W/src" && sed -i "s#=> /repo#=> ${REPO:-/repo}#" go.mod && go build DEMOFLAGS -o "$W/d" ./demo || exit 3
timeout 120 "$W/d"
S
sed -i "s/DEMOFLAGS/${DEMOFLAGS:-}/" $D/demo.sh
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
echo "unchanged: "; REPO=/repo bash $D/demo.sh >/tmp/demo.out 2>&1 && echo "ok($?)" || echo "BAD exit $?"
echo "changed: "; set +e; REPO=/tmp/seed bash $D/demo.sh >/tmp/demo.out 2>&1; echo "exit $? (want nonzero, not 3)"; grep -v "^[IE][0-9]" /tmp/demo.out | tail -3
cd /tmp/seed && bash /verif/tools/seedtest.sh
