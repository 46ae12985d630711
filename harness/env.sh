export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
