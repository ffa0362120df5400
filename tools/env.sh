export CARGO_NET_OFFLINE=true
# alloc_error_hook turns an injected allocation failure into an unwinding panic instead of an abort
export RUSTC_BOOTSTRAP=fcsim,fcbase
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CONST_RANDOM_SEED FCFIX_SEED FCFIX_COUNT FCFIX_ONLY FCSIM_EXES
