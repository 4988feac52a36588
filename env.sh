# Sourced by setup.sh and check.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
unset GOFLAGS PGHOST PGPORT PGUSER PGDATABASE PGPASSWORD PGSSLMODE PGAPPNAME
