# how the programs under simulation are built: everything, std included, instrumented
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Ctarget-cpu=x86-64 -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Crelocation-model=static -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-distinguish-volatile=1"
