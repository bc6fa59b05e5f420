#!/bin/bash
# RUSTC_WRAPPER: instruments the library under test (and the two crates its code runs in) with preemption
# points, and enables its simulation hooks. Everything else is compiled as usual.
rustc="$1"; shift
case " $* " in
  *" --crate-name lcms2 "*|*" --crate-name sut "*|*" --crate-name once_cell "*)
    cmp=(); case " $* " in *" --crate-name lcms2 "*) cmp=(-Cllvm-args=-sanitizer-coverage-trace-compares) ;; esac
    cfg=(); [ "${DST_HOOKS:-1}" = 1 ] && cfg=(--cfg lcms2_dst)
    exec "$rustc" "$@" "${cfg[@]}" "${cmp[@]}" -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
