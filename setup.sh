#!/bin/bash
# builds the analyzer offline (vendored dependencies) into /verif/bin
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/bin" && cd "$here/analyzer" && go build -mod=vendor -o "$here/bin/ginkgoverif" ./cmd/ginkgoverif
