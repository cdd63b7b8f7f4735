#!/bin/bash
# mkbug.sh ID PROPERTY "needs" "breaks"  : takes the current uncommitted change of /repo as the patch of seeded/ID, and undoes it.
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C ${R:=/tmp/wr} diff > $D/patch.diff; [ -s $D/patch.diff ]
git -C ${R:=/tmp/wr} checkout -- .
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
cat > $D/demo.sh <<'S'
#!/bin/bash
# Builds demo.cc against the library in /repo/_build/generic and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build/generic
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -w -O1 -msse2 -include cstring -include cstdint -DHAVE_CONFIG_H -I$B/include -I$R/include -I$R/other_libs/xpath_reader/include $(cat "$D/flags" 2>/dev/null) "$D/demo.cc" -o $T/demo -L$B/lib -lqdp || exit 3
cd $T && timeout 100 ./demo > out 2>&1; rc=$?
tail -3 out
exit $rc
S
chmod +x $D/demo.sh
[ -f $D/demo.cc ] || echo "write $D/demo.cc"
