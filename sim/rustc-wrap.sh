#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test (gaoya), its Python binding and the
# workloads that instantiate its generics with ThreadSanitizer *instrumentation only*:
# every memory access and atomic becomes a call into simrt (the simulator), which is the
# scheduling seam. No ThreadSanitizer runtime is linked.
rustc="$1"; shift
name=""; prev=""; cdylib=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$prev" = "--crate-type" ] && [ "$a" = "cdylib" ] && cdylib=1
  prev="$a"
done
case "$name" in
  gaoya|gsim)
    if [ -n "$cdylib" ]; then
      # the Python extension: its own references bind to its own (simulated) libc entry points
      set -- "$@" -Clink-arg=-Wl,-Bsymbolic
    fi
    exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer -Zsanitizer=thread -Zexternal-clangrt ;;
  *)
    exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
