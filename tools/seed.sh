#!/bin/bash
# seed.sh mk ID PROP PKG: turn the edits made in /tmp/seedrepo (a copy of /repo) into seeded/ID, then verify
# seed.sh verify ID: applies, builds, tests, demo both ways, check
. /opt/vp/env.sh
V=/verif
cmd=$1; id=$2
case $cmd in
new) rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo;;
mk)
  mkdir -p $V/seeded/$id
  git -C /tmp/seedrepo diff > $V/seeded/$id/patch.diff
  cat > $V/seeded/$id/demo.sh <<D
#!/bin/bash
# runs demo_test.go inside package $4 of the tree in the current directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
echo "{\"Replace\":{\"\$PWD/$4/zz_seed_demo_test.go\":\"\$D/demo_test.go\"}}" > "\$T/o.json"
TMPDIR=\$T go test -vet=off -count=1 -timeout 240s -overlay "\$T/o.json" -run '^TestSeedDemo\$' "./$4" || exit 1
exit 0
D
  chmod +x $V/seeded/$id/demo.sh
  ;;
verify)
  R=/tmp/seedv; rm -rf $R; cp -a /repo $R
  cd $R && bash $V/seeded/$id/demo.sh >/tmp/demo0.log 2>&1 || { echo "demo fails on clean"; tail -5 /tmp/demo0.log; }
  git -C $R apply $V/seeded/$id/patch.diff || { echo "patch does not apply"; exit 1; }
  go build ./... || { echo "no build"; exit 1; }
  go test -count=1 ./... > /tmp/seedtest.log 2>&1 || { echo "TESTS FAIL"; grep -E "^(---|FAIL)" /tmp/seedtest.log | head; }
  if bash $V/seeded/$id/demo.sh >/tmp/demo1.log 2>&1; then echo "demo passes with patch"; fi
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  [ "$3" = nocheck ] || $V/check.sh $P -repo $R 2>&1 | tail -5
  rm -rf /tmp/seedv
  ;;
esac
