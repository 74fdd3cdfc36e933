# Environment shared by the checks: offline Go, the tree under test, the harness.
export VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-$HOME/go/pkg/mod}"
export GONOSUMDB='*' GONOSUMCHECK=1 CGO_ENABLED=0
if [ -d /dev/shm ] && [ -w /dev/shm ]; then export TMPDIR="${VERIF_TMP:-/dev/shm}"; else export TMPDIR="${VERIF_TMP:-/tmp}"; fi
