#!/bin/bash
# builds the verifier
set -e
cd "$(dirname "$0")/govc"
. ./env.sh
mkdir -p ../bin
go build -o ../bin/govc .
