#!/bin/sh
# RUSTC_WRAPPER: compiles yasai as if for the machine named by YASAI_ARCH, with its intrinsics taken from std.rs.
case " $* " in
*" --crate-name yasai "*)
    case $YASAI_ARCH in
    aarch64) F=neon ;;
    wasm32) F=simd128 ;;
    esac
    exec "$@" -A explicit_builtin_cfgs_in_flags --cfg "target_arch=\"$YASAI_ARCH\"" --cfg "target_feature=\"$F\"" \
        --extern "std=$YASAI_STD" -L "$(dirname "$YASAI_STD")" ;;
esac
exec "$@"
