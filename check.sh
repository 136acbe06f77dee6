#!/bin/bash
# usage: check.sh PROPERTY   (reads VERIF_SEED and VERIF_TIER)
#        check.sh --build    (builds every variant)
# Builds the monitors against the current working tree of /repo and runs one check.
set -u
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
V=/verif
mkdir -p $V/work $V/target $V/evidence $V/replays

tree_hash() {
    (cd /repo && find . \( -name .git -o -name target -o -name node_modules -o -name __pycache__ \) -prune -o -type f -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# Cargo decides by modification time; a tree restored with older times would be missed.
# The stamp makes a changed tree rebuild whatever its times are.
build_variant() { # name crate args...
    local name=$1 crate=$2; shift 2
    local dir=$V/target/$name stamp=$V/target/$name/tree.stamp
    mkdir -p "$dir"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$TREE" ]; then
        (cd $V/$crate && CARGO_TARGET_DIR=$dir cargo clean --offline \
            -p m-bus-parser -p m-bus-core -p m-bus-application-layer -p wired-mbus-link-layer -p wireless-mbus-link-layer) >/dev/null 2>&1
    fi
    if ! (cd $V/$crate && CARGO_TARGET_DIR=$dir cargo build --offline "$@") >"$V/work/build-$name.log" 2>&1; then
        echo "error: building variant $name failed"
        tail -40 "$V/work/build-$name.log"
        return 2
    fi
    echo "$TREE" >"$stamp"
}

# The command line tool and the Python extension, from the repository's own workspace.
build_host() {
    local dir=$V/target/host
    mkdir -p "$dir/site"
    [ -e /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
    if [ "$(cat "$dir/tree.stamp" 2>/dev/null)" != "$TREE" ]; then
        (cd /repo && CARGO_TARGET_DIR=$dir cargo clean --offline -p m-bus-parser -p m-bus-core -p m-bus-application-layer \
            -p wired-mbus-link-layer -p wireless-mbus-link-layer -p m-bus-parser-cli -p pymbusparser) >/dev/null 2>&1
    fi
    if ! (cd /repo && PYO3_PYTHON=$(host_python) CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_INCREMENTAL=false \
        CARGO_TARGET_DIR=$dir cargo build --offline -p m-bus-parser-cli -p pymbusparser) >"$V/work/build-host.log" 2>&1; then
        echo "error: building the command line tool and the Python extension failed"
        tail -40 "$V/work/build-host.log"
        return 2
    fi
    cp "$dir/debug/libpymbusparser.so" "$dir/site/.new.so" && mv "$dir/site/.new.so" "$dir/site/pymbusparser.so" || return 2
    host_python >"$dir/python"
    echo "$TREE" >"$dir/tree.stamp"
}

host_python() {
    if [ -x /opt/vp/venv/bin/python ]; then echo /opt/vp/venv/bin/python; else command -v python3; fi
}

build() {
    case $1 in
    main) build_variant main harness ;;
    plain) build_variant plain harness --features plaintext ;;
    nodec) build_variant nodec harness --no-default-features ;;
    bare) build_variant bare bare ;;
    log) build_variant log logging ;;
    web) build_variant web bindings ;;
    host) build_host ;;
    # emulated host; bindings it cannot build are still observed through the web variant
    webhost) build_variant webhost webhost >/dev/null || rm -f "$V/target/webhost/debug/mbuswebhost" ;;
    asan)
        RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-Zsanitizer=address" CARGO_PROFILE_DEV_OPT_LEVEL=1 \
            build_variant asan harness --target x86_64-unknown-linux-gnu
        ;;
    steps)
        RUSTC_WRAPPER=$V/tools/rustc-steps.sh CARGO_PROFILE_DEV_OPT_LEVEL=1 \
            build_variant steps harness --target x86_64-unknown-linux-gnu --features steps
        ;;
    *) echo "unknown variant $1"; return 2 ;;
    esac
}

needs() {
    case $1 in
    --build) echo "main plain nodec bare log web host webhost steps asan" ;;
    C01) echo "main plain nodec asan" ;;
    C02) echo "steps" ;;
    C24) echo "main web host webhost" ;;
    C27) echo "main web" ;;
    C25) echo "main plain nodec bare" ;;
    C34) echo "main log" ;;
    *) echo "main" ;;
    esac
}

(
    flock 9
    TREE=$(tree_hash)
    for v in $(needs "$1"); do build "$v" || exit 2; done
) 9>$V/work/build.lock || exit 2
[ "$1" = --build ] && exit 0
cd $V
case $1 in
C02) bin=$V/target/steps/x86_64-unknown-linux-gnu/debug/mbusmon ;;
*) bin=$V/target/main/debug/mbusmon ;;
esac
exec "$bin" check "$1"
