#!/bin/bash
# mkseed.sh ID PROPERTY: take the working-tree change of /repo as a planted bug, undo it there.
# needs/what come from stdin: line 1 needs, line 2 what it breaks. demo files: given by hand.
set -e
id=$1; prop=$2; d=/verif/seeded/$id
mkdir -p $d
git -C /repo diff > $d/patch.diff
test -s $d/patch.diff
IFS= read -r needs; IFS= read -r what
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
git -C /repo checkout -- .
cat > $d/demo.sh <<'D'
#!/bin/bash
# Runs demo_test.go.txt as a test of the package named on its first line; cwd is /repo.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
D
sed -i 's#^\. /opt/vp/env.sh#here=$(cd "$(dirname "$0")" \&\& pwd)\n. /opt/vp/env.sh#; /^here=\$(cd "\$(dirname "\$0")" && pwd)$/d' $d/demo.sh
cat > $d/demo.sh <<'D'
#!/bin/bash
# Runs demo_test.go.txt (first line: the package directory) as an overlay test; cwd is /repo.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
pkg=$(head -1 "$here/demo_test.go.txt" | sed 's#^// ##')
tmp=$(mktemp -d)
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
printf '{"Replace":{"/repo/%s/zz_demo_test.go":"%s/zz_demo_test.go"}}' "$pkg" "$tmp" > "$tmp/o.json"
go test -overlay "$tmp/o.json" -count=1 -timeout 200s -run '^TestPlanted$' "./$pkg"
rc=$?
rm -rf "$tmp"
exit $rc
D
chmod +x $d/demo.sh
