"""builds the MIR driver (the checks rebuild it when it is not there)"""
import os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
env = {k: v for k, v in os.environ.items() if k not in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN")}
env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(H, ".build", "driver"))
sys.exit(subprocess.call(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(H, "driver"), env=env))
