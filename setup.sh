#!/bin/bash
# builds the verifier and warms the build cache; checks rebuild whatever is missing
cd "$(dirname "$0")" || exit 1
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p bin evidence replays
(cd gvc && go build -o ../bin/gvc .) || exit 1
python3 tools/mkoverlay.py /repo > bin/overlay.json && cd /repo && go test -overlay /verif/bin/overlay.json -vet=off -c -o /dev/null ./pkg/app || true
exit 0
