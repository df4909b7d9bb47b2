# Builds drjit-core (LLVM backend) from the current directory into $w, then
# compiles and runs demo.cpp. Expects $here (folder of the demo).
set -u
repo=$PWD
w=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")
trap 'rm -rf "$w"' EXIT
export HOME=$w
for p in /usr/lib/x86_64-linux-gnu/libLLVM-17.so.1 /usr/lib/x86_64-linux-gnu/libLLVM-18.so.1; do
    [ -e "$p" ] && { export DRJIT_LIBLLVM_PATH=$p; break; }
done
inc="-I$here/kit -I$repo/include -I$repo -I$repo/src -I$repo/ext/lz4 -I$w"
: > "$w/files.txt"
for n in kernels_dict kernels_75; do
    python3 -c 'import sys; d=open(sys.argv[1],"rb").read(); print("#include \"resources/kernels.h\"\nconst char %s[] = {%s};" % (sys.argv[2], ",".join("(char)%d" % b for b in d)))' \
        "$repo/resources/$n.lz4" $n > "$w/$n.c" || exit 2
    clang -O1 -w $inc -c "$w/$n.c" -o "$w/$n.o" || exit 2
done
for f in "$repo"/src/*.cpp "$here"/kit/nanothread.cpp "$here"/demo.cpp; do
    case "$f" in */metal_*) continue;; esac
    echo "$f" >> "$w/files.txt"
done
one() {
    o="$w/$(basename "$1").o"
    x=; case "$1" in */llvm_ts.cpp) x="-fassociative-math -fno-signed-zeros -fno-trapping-math";; esac
    clang++ -std=gnu++17 -O1 -g0 -mf16c -fPIC -w $x -DDRJIT_BUILD=1 -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 -DDRJIT_ENABLE_CUDA=1 -DDRJIT_ENABLE_OPTIX=1 -DLZ4LIB_VISIBILITY= $inc -c "$1" -o "$o" || exit 255
}
export -f one; export w inc
xargs -a "$w/files.txt" -P 8 -I{} bash -c 'one {}' || { echo "demo: build failed"; exit 2; }
for f in lz4 xxhash; do clang -O1 -w -c "$repo/ext/lz4/$f.c" -o "$w/$f.o" || exit 2; done
clang++ "$w"/*.o -o "$w/demo" -ldl -lpthread || { echo "demo: link failed"; exit 2; }
cd "$w" && timeout -k 5 120 ./demo
rc=$?
echo "demo: exit code $rc"
[ $rc -eq 0 ]
exit $?
