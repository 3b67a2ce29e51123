#!/bin/bash
# tools/seed.sh ID PROP : turn /repo's current uncommitted diff into seeded/ID (demo.cc already there), confirm it and run the check.
set -u
ID=$1; PROP=$2; S=/verif/seeded/$ID; mkdir -p $S
if [ -n "$(git -C /repo status --porcelain)" ]; then git -C /repo diff > $S/patch.diff; else git -C /repo apply $S/patch.diff || exit 9; fi
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
[ -f $S/demo.sh ] || cat > $S/demo.sh <<'X'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -w -I"$R/src" -I/usr/include/uriparser -I/usr/include/minizip "$D/demo.cc" -L"$R/_build/lib" \
  -lkmlregionator -lkmlconvenience -lkmlengine -lkmlxsd -lkmldom -lkmlbase -lexpat -luriparser -lminizip -lz -Wl,-rpath,"$R/_build/lib" -o "$T/demo" || exit 99
cd "$T" && timeout 60 ./demo
X
bash /tmp/rt.sh || { echo BUILD FAIL; exit 3; }
(cd /repo && bash $S/demo.sh); echo "demo patched rc=$?"
cd /verif && timeout 900 bin/check $PROP quick | tail -3 | cut -c1-400; echo "check rc=${PIPESTATUS[0]}"
git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $S/demo.sh); echo "demo clean rc=$?"
