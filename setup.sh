#!/bin/bash
# Builds the verification-condition generator and every contract binary from the committed files.
set -e
cd "$(dirname "$0")/vc"
cargo build --offline --quiet
