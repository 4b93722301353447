# Shared by the demonstrations: assembles a guest program and runs it in ./target/debug/carron.
HERE="$(cd "$(dirname "$0")" && pwd)"
CARRON="$PWD/target/debug/carron"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
CLANG="$(command -v clang-18 || command -v clang)"

# build XLEN SOURCE OUTPUT [linker options]
build() {
    local x=$1 s=$2 o=$3; shift 3
    local abi=lp64; [ "$x" = 32 ] && abi=ilp32
    "$CLANG" --target=riscv$x-unknown-elf -march=rv${x}imac_zicsr_zifencei -mabi=$abi -DXLEN=$x -I"$HERE" -nostdlib \
        -fuse-ld=lld -Wl,-T,"$HERE/link.ld" "$@" "$s" -o "$o" || { echo "cannot assemble $s"; exit 3; }
}

# guest XLEN SOURCE: status 85 is the guest's "all right", other odd numbers are its complaints
guest() {
    build "$1" "$HERE/$2" "$T/guest$1.elf"
    timeout 100 "$CARRON" "$T/guest$1.elf" </dev/null >"$T/out" 2>"$T/err"
    local st=$?
    if [ $st -ne 85 ]; then
        echo "$2 on RV$1: status $st, expected 85"; tail -3 "$T/err"
        exit 1
    fi
}
