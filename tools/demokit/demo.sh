#!/bin/bash
# builds and runs the demonstration program beside this file against the flow module in the current directory
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GO111MODULE=on
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/act"
cp "$D/act.go" "$T/act/act.go" && cp "$D/kit.go" "$D/demo.go" "$T/" || exit 2
printf 'module demo\n\ngo 1.18\n\nrequire github.com/project-flogo/core v1.6.10\n' > "$T/go.mod"
printf 'go 1.18\n\nuse (\n\t.\n\t%s\n\t%s/activity/subflow\n)\n' "$R" "$R" > "$T/go.work"
export GOWORK="$T/go.work"
(cd "$T" && go build $RACE -o demo .) || exit 2
cd "$T" && FLOGO_LOG_LEVEL=ERROR timeout 120 ./demo
