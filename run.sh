#!/bin/bash
# setup | check <property> <quick|thorough> | replay <file>
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export GOWORK="$PWD/go.work" GOFLAGS= GOPROXY=off GOTOOLCHAIN=local
mkdir -p .build evidence
build() { ( cd mon && go build -o ../.build/mon . ) || exit 2; }
buildrace() { ( cd mon && go build -race -o ../.build/mon-race . ) || exit 2; }
case "$1" in
setup) build; buildrace ;;
build) build ;;
check)
  build
  case "$2" in C12|C13|C22|C25) buildrace ;; esac
  exec .build/mon check "$2" "$3" ;;
replay) build; grep -q '"race": true' "$2" && buildrace; exec .build/mon replay "$2" ;;
*) echo "usage: run.sh setup|check|replay"; exit 2 ;;
esac
