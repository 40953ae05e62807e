export RUSTUP_TOOLCHAIN=nightly-2024-12-30
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= 
unset DATABASE_URL RUSTFLAGS
