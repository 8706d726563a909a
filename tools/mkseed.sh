#!/bin/bash
# mkseed.sh ID   lay out the common files of a planted bug's demonstration in seeded/ID (then write main.go, patch.diff, meta.json)
set -e
d=/verif/seeded/$1
mkdir -p "$d/objecthash"
cp /verif/objecthash/go.mod /verif/objecthash/objecthash.go "$d/objecthash/"
grep -v rapid /verif/harness/go.mod | grep -v '^replace' | sed 's/^module .*/module demo/' > "$d/go.mod.in"
cp /verif/harness/go.sum "$d/go.sum.in"
cat > "$d/demo.sh" <<'X'
#!/bin/bash
# Builds main.go (beside this file) against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=${REPO:-$PWD}
. /opt/vp/env.sh >/dev/null 2>&1
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp "$here"/*.go "$w"/ && cp "$here/go.sum.in" "$w/go.sum" && cp "$here/go.mod.in" "$w/go.mod" || exit 3
cat >> "$w/go.mod" <<M
replace github.com/continusec/verifiabledatastructures => $repo
replace github.com/continusec/objecthash => $here/objecthash
M
cd "$w" || exit 3
mkdir -p "$w/tmp"; export TMPDIR="$w/tmp" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o demo . || exit 3
timeout 200 ./demo
X
chmod +x "$d/demo.sh"
cat > "$d/lib.go" <<'X'
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

var bg = context.Background()

func bad(format string, a ...any) {
	fmt.Printf("BROKEN: "+format+"\n", a...)
	os.Exit(1)
}

func ok(err error, what string) {
	if err != nil {
		bad("%s: %v", what, err)
	}
}

func service() pb.VerifiableDataStructuresServiceServer {
	db := &memory.TransientStorage{}
	return (&verifiable.Service{Mutator: &instant.Mutator{Writer: db}, AccessPolicy: policy.Open, Reader: db}).MustCreate()
}

func account(s pb.VerifiableDataStructuresServiceServer, id string) *verifiable.Account {
	return (&verifiable.Client{Service: s}).Account(id, "key")
}
X
