# Sourced by setup.sh and check.sh.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
build_checker() {
  mkdir -p bin
  (cd checker && go build -o ../bin/checker.$$ . ) && mv -f bin/checker.$$ bin/checker
}
