#!/bin/bash
# newbug.sh ID PROPERTY NEEDS BREAKS [backend]: takes /repo's working-tree diff as a planted bug (demo.cpp read from stdin) and undoes it.
d=/verif/seeded/$1; mkdir -p $d; cat > $d/demo.cpp
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
b=_build; l="-lexpat"
[ "$5" = libxml2 ] && { b=_build-libxml2; l="-lxml2"; }
[ "$5" = xerces ] && { b=_build-xerces; l="-lxerces-c"; }
cat > $d/demo.sh <<S
#!/bin/bash
# builds demo.cpp against the tree in the current directory and runs it
here=\$(cd "\$(dirname "\$0")" && pwd); repo=\$PWD
work=\$(mktemp -d) || exit 2
trap 'rm -rf "\$work"' EXIT
g++ -std=gnu++14 -w -O0 -I\$repo/$b/arabica/include -I/usr/include/libxml2 -I\$repo/include "\$here/demo.cpp" -o \$work/demo \$repo/$b/arabica/libarabica.a $l -lpthread || exit 3
cd "\$work" && timeout 120 ./demo
S
