#!/bin/bash
# builds the verifier, offline, from the committed files
. /opt/vp/env.sh
cd "$(dirname "$0")/gocv" && go build -mod=vendor -o bin/gocv .
