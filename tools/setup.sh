#!/bin/bash
# Builds every harness crate.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" $(cd "$here/../h" && ls -d */Cargo.lock | cut -d/ -f1)
