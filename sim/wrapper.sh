#!/bin/bash
# RUSTC_WRAPPER: compile the crate under test and the code that monomorphises its generics with the
# ThreadSanitizer instrumentation pass. The __tsan_* symbols are implemented by ../rt, not by the TSan run time.
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      sut|orx_concurrent_iter)
        export RUSTC_BOOTSTRAP=1
        exec "$rustc" "$@" -Awarnings -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer ;;
      *) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@"
