mk () 
{ 
    d=seeded/$1;
    cat > $d/demo.cpp;
    cat > $d/demo.sh <<EOF
#!/bin/bash
# run with cwd = the repository
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d)
trap 'rm -r "\$T"' EXIT
mkdir "\$T/include" && ln -s "\$PWD/src" "\$T/include/envire"
g++ -std=c++14 -O1 -g -w $FLAGS -I"\$T/include" -I/usr/include/eigen3 "\$D/demo.cpp" $SRCS -o "\$T/demo" || exit 2
timeout 120 "\$T/demo"
EOF

    python3 - "$@" <<'PY'
import json,sys
d='/verif/seeded/'+sys.argv[1]
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(d+'/meta.json','w'),indent=1)
PY

}
mkc () 
{ # like mk, for demos that need the whole core library
    d=seeded/$1;
    cat > $d/demo.cpp;
    mkdir -p $d/stubs; cp -r stubs/. $d/stubs/
    cp -r stubs/base $d/stubs/
    cp -r stubs/base-logging $d/stubs/
    cat > $d/stubs/stubs.cpp <<EOF
#include <base/Time.hpp>
#include <base/Pose.hpp>
namespace base { Time Time::now(){ return Time(); } Pose::Pose(const Eigen::Affine3d&){} }
EOF
    cat > $d/demo.sh <<EOF
#!/bin/bash
# run with cwd = the repository: compiles the core library and a small program
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d)
trap 'rm -r "\$T"' EXIT
mkdir "\$T/include" && ln -s "\$PWD/src" "\$T/include/envire"
F="-std=c++14 -O0 -fpermissive -w -I\$T/include -I\$PWD/src -I\$PWD -I\$D/stubs -I/usr/include/eigen3 $FLAGS"
for f in Environment Event EventHandler EventSource FrameNode Layer Operator Serialization SerializationFactory Transform; do
  g++ \$F -c src/core/\$f.cpp -o "\$T/\$f.o" &
done
for f in $SRCS; do g++ \$F -c \$f -o "\$T/x_\$(basename \$f .cpp).o" & done
g++ \$F -c "\$D/stubs/stubs.cpp" -o "\$T/stubs.o" &
g++ \$F -c "\$D/demo.cpp" -o "\$T/demo.o" &
wait
g++ $FLAGS "\$T"/*.o -lyaml -lboost_filesystem -lboost_thread -lboost_system -o "\$T/demo" || exit 2
cd "\$T" && timeout 100 "\$T/demo"
EOF
    python3 - "$@" <<'PY'
import json,sys
d='/verif/seeded/'+sys.argv[1]
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(d+'/meta.json','w'),indent=1)
PY
}
