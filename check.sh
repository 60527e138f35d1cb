#!/bin/bash
# check.sh <property>: builds what the check needs from /repo's current tree and decides the property.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_TARGET_DIR
id=$1
[ -n "$2" ] && export VERIF_TIER=$2
B=/verif/.build
mkdir -p $B /verif/evidence
case $id in
  C01|C02|C03|C04|C05|C06|C07|C08|C09|C11) bin=cpu tools= ;;
  C10|C12|C13|C14) bin=sys tools=t ;;
  C15|C16|C17) bin=obj tools=tar ;;
  C18|C19|C20|C21|C22) bin=asm tools=tc ;;
  C23) bin=dis tools=tc ;;
  C24|C25|C26|C27|C28) bin=link tools="tl tar tstrip" ;;
  C29|C30|C31|C32) bin=tools tools="t tar tc tdbg tl tobjdump tstrip" ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
[ $id = C11 ] && tools=t
[ $id = C30 ] && { gcc -O1 -shared -fPIC -o $B/fault.so /verif/harness/shim/fault.c || exit 2; }
ok=1
if [ -n "$tools" ]; then
  args=; for t in $tools; do args="$args --bin $t"; done
  ( exec 9>$B/r.lock; flock 9
    cargo build --offline --manifest-path /repo/Cargo.toml $args --target-dir $B/r \
      --config profile.dev.debug=0 --config profile.dev.incremental=false --config profile.dev.opt-level=0 \
      --config 'profile.dev.package."*".opt-level=0' --config profile.dev.build-override.opt-level=0 ) > $B/r.$id.log 2>&1 &
  rp=$!
fi
( exec 9>$B/h.lock; flock 9
  RUSTFLAGS="--cfg telda_verif" cargo build --offline --manifest-path /verif/harness/Cargo.toml --bin $bin --target-dir $B/h ) > $B/h.$id.log 2>&1 || ok=0
if [ -n "$tools" ]; then wait $rp || { ok=0; tail -40 $B/r.$id.log >&2; }; fi
[ $ok = 1 ] || { grep -E '^error' -A12 $B/h.$id.log >&2; echo "build failed" >&2; exit 2; }
export MC_TOOLS=$B/r/debug
exec $B/h/debug/$bin $id
