#!/bin/bash
# development build: tools/b.sh <profile> <default|strict>
f=""; [ "$2" = strict ] && f="--features strict"
cd /verif/harness && RUSTFLAGS="--cfg http_ntlm_verif" CARGO_TARGET_DIR=/verif/target/$1-$2 cargo build --offline --profile $1 $f 2>&1 | grep -A14 "^error"
