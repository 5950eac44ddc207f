# Sourced by the scripts: offline Go environment and the builds of the harness.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
_build() { # NAME ARGS...
  local out="$VERIF_ROOT/build/$1"; shift
  (cd "$VERIF_ROOT/harness" && go build -buildvcs=false "$@" -o "$out.$$" ./cmd/vmc && mv "$out.$$" "$out")
}
build() {
  mkdir -p "$VERIF_ROOT/build"
  _build vmc -tags verif
}
# The library with a scheduling point before every statement, and the build
# with the race detector.
build_variants() {
  local d="$VERIF_ROOT/build/sched.$$" rc=0
  (cd "$VERIF_ROOT/harness" && go run -buildvcs=false ./cmd/instr /repo "$d") &&
    _build vmc-sched -tags verif,sched -overlay "$d/overlay.json" &&
    _build vmc-race -tags verif,sched -overlay "$d/overlay.json" -race || rc=1
  rm -rf "$d"
  return $rc
}
