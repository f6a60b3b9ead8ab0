m(){ echo "== $1"; bash /tmp/mut.sh $P "$2" "$3" "$4" ${L:-2}; }
