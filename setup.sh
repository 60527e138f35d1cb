#!/bin/bash
# Nothing needs to be prepared: every check builds what it needs from /repo and /verif/harness.
# Verify that the tools are there.
export PATH=/root/.cargo/bin:$PATH
cargo --version && rustc --version
