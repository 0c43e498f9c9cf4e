#!/bin/bash
# rustc wrapper for the workspace crates of /repo: SanitizerCoverage callbacks on
# every basic block, load and store (the simulator's preemption points).
rustc="$1"; shift
case " $* " in *" --crate-type proc-macro "*|*" build_script_build "*) exec "$rustc" "$@";; esac
extra=()
case " $* " in *" --crate-type bin "*) extra=(-C relocation-model=static -C link-arg=-Wl,--unresolved-symbols=ignore-all);; esac
exec "$rustc" "$@" -C opt-level=1 -C codegen-units=64 -C debug-assertions=off \
  -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
  -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads \
  -C llvm-args=-sanitizer-coverage-trace-stores "${extra[@]}"
