#!/bin/bash
# mkseed.sh ID PROP file 'perl-expr' "needs" "breaks"   (more file/expr pairs: set X2_FILE/X2_EXPR)
S=/verif/seeded/$1; mkdir -p $S
W=$(mktemp -d); cp -a /repo/. $W/ 2>/dev/null; rm -rf $W/.git
mkdir $W/../$(basename $W).o; O=$W/../$(basename $W).o; for p in "$3" $X2_FILE $X3_FILE; do mkdir -p $O/a/$(dirname $p) $O/b/$(dirname $p); cp /repo/$p $O/a/$p; cp /repo/$p $O/b/$p; done
perl -0pi -e "$4" $O/b/$3
[ -n "$X2_FILE" ] && perl -0pi -e "$X2_EXPR" $O/b/$X2_FILE
[ -n "$X3_FILE" ] && perl -0pi -e "$X3_EXPR" $O/b/$X3_FILE
(cd $O; for p in "$3" $X2_FILE $X3_FILE; do diff -u a/$p b/$p; done) > $S/patch.diff
python3 - "$S/meta.json" "$2" "$5" "$6" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
cp /verif/tools/demo.tmpl $S/demo.sh
head -40 $S/patch.diff; rm -r "$O" "$W"
