#!/bin/bash
# Translates t*.ts with ts/ts2go.mjs, runs the Go and the JavaScript, and shows where they differ (development tool).
set -u
here=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$(dirname "$here")"); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p $W/zz_verif/cmd $W/zz_verif/tsgen
cp -r $V/harness/jsrt $V/harness/sym $V/harness/std $W/zz_verif/
sed -i 's/sym\.GiveUp(/giveUp(/' $W/zz_verif/jsrt/*.go
printf 'package jsrt\nimport "github.com/kevmo314/appendable/zz_verif/sym"\nvar _ = sym.Bool\nfunc giveUp(why string) { ThrowV(New(Global("Error"), V("GIVEUP "+why))) }\n' > $W/zz_verif/jsrt/giveup.go
sed -i "/^var _ = sym/d" $W/zz_verif/jsrt/giveup.go
for f in $W/zz_verif/jsrt/*.go; do grep -q "verif/sym" $f && echo "var _ = sym.Bool" >> $f; done
cp /repo/go.sum $W/
cp /repo/go.mod $W/; GOMODFLAG=-mod=mod
cat > $W/zz_verif/cmd/main.go <<X
package main
import ("fmt";"github.com/kevmo314/appendable/zz_verif/tsgen";. "github.com/kevmo314/appendable/zz_verif/jsrt")
func main(){ fmt.Println(Await(Call(tsgen.Export("run")))) }
X
for t in ${1:-$here/t*.ts}; do
  node $V/ts/ts2go.mjs /nonexistent $t $W/zz_verif/tsgen/gen.go $W/t.mjs tsgen github.com/kevmo314/appendable/zz_verif/jsrt || continue
  echo "import {run} from '$W/t.mjs'; console.log(await run());" > $W/n.mjs
  (cd $W && node n.mjs > node.out 2>&1; GOFLAGS= GOPROXY=off go run $GOMODFLAG ./zz_verif/cmd > go.out 2> go.err; head -${L:-12} go.err; echo "$(basename $t): $(wc -l < node.out) lines";  [ -s go.out ] && diff go.out node.out | head -${N:-80})
done
