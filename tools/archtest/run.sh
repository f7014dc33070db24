#!/bin/bash
# Compares the emulated intrinsics of harness/arch/std.rs with the real ones: WebAssembly's under node, NEON's under miri
# (which lacks three of them). By hand only; takes about two minutes. Works in a scratch folder.
set -e
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'find "$t" -delete' EXIT
V=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor
for a in wasm neon; do
    mkdir -p "$t/$a/src" "$t/$a/.cargo"; cd "$t/$a"
    printf '[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s"\n' "$V" > .cargo/config.toml
    printf '[package]\nname = "at"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n' > Cargo.toml
    python3 "$here/$a.py"
    rustc --edition 2021 --crate-type rlib --crate-name archstd -O -A warnings "$here/../../harness/arch/std.rs" -o libarchstd.rlib
    if [ $a = wasm ]; then
        printf '[lib]\ncrate-type = ["cdylib"]\n' >> Cargo.toml
        printf 'use archstd::arch::wasm32 as w;\ninclude!("body.rs");\nfn main() { print!("{}", run()) }\n' > emu.rs
        printf '#![allow(unused)]\nuse std::arch::wasm32 as w;\ninclude!("../body.rs");\nstatic mut S: String = String::new();\n#[no_mangle] pub extern "C" fn go() -> *const u8 { unsafe { S = run(); S.as_ptr() } }\n#[no_mangle] pub extern "C" fn len() -> usize { unsafe { S.len() } }\n' > src/lib.rs
        RUSTFLAGS="-C target-feature=+simd128 -A warnings" cargo +nightly build -q --offline -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown
        node "$here/wasm.js" > real.txt
    else
        printf 'use archstd::arch::aarch64 as w;\ninclude!("body.rs");\nfn main() { run() }\n' > emu.rs
        printf '#![allow(unused)]\nuse std::arch::aarch64 as w;\ninclude!("../body.rs");\nfn main() { run() }\n' > src/main.rs
        RUSTFLAGS="-A warnings" cargo +nightly miri run -q --offline --target aarch64-unknown-linux-gnu > real.txt
    fi
    rustc -A warnings --edition 2021 -L . --extern archstd=libarchstd.rlib emu.rs -o emu
    ./emu > emu.txt
    diff emu.txt real.txt && echo "$a: $(wc -l < real.txt) operations agree"
done
