#!/bin/bash
# builds the verification-condition generator
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p /verif/bin
cd /verif/engine
GOFLAGS=-mod=mod go build -o /verif/bin/vcgen .
