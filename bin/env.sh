for g in /opt/veriftools/go1.23.12 /opt/veriftools/go1.24.13 /usr/local/go; do
  if [ -x "$g/bin/go" ]; then PATH="$g/bin:$PATH"; break; fi
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOENV=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
