mk () 
{ 
    id=$1;
    prop=$2;
    needs=$3;
    what=$4;
    mkdir -p /verif/seeded/$id;
    python3 - "$id" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P

    cat > /verif/seeded/$id/demo.cpp;
    cat > /verif/seeded/$id/demo.sh <<'E'
#!/bin/bash
# compiles demo.cpp against /repo/src and runs it: exit 0 when the behaviour is right
set -e
D=$(cd "$(dirname "$0")" && pwd); S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
g++ -std=gnu++17 -w -pthread -DUNIT_TESTING -I src "$D/demo.cpp" $(cat "$D/extra" 2>/dev/null) -o "$S/demo"
"$S/demo"
E

}
