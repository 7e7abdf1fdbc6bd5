#!/bin/bash
# builds the framework from the committed files, offline
set -e
cd /verif/extract && RUSTFLAGS=-Awarnings cargo build --offline -q
cd /verif/harness && RUSTFLAGS=-Awarnings cargo build --offline -q
verus --version >/dev/null
mkdir -p /verif/evidence
