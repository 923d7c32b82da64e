#!/bin/bash
# Runs main.go.txt as a program of the riot module, through an overlay:
# nothing is written in the working tree. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3
trap 'rm -rf "$w"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export TMPDIR=$w
cp "$repo/go.mod" "$repo/go.sum" "$w/" || exit 3
# github.com/go-vgo/gt/info is not installed here; a stand-in replaces it
mkdir "$w/gtinfo" && cp "$here/info.go.txt" "$w/gtinfo/info.go" && printf 'module github.com/go-vgo/gt/info\n\ngo 1.13\n' > "$w/gtinfo/go.mod"
printf '\nrequire github.com/go-vgo/gt/info v0.0.0\n\nreplace github.com/go-vgo/gt/info => %s/gtinfo\n' "$w" >> "$w/go.mod"
more=
declare -A slow
n=0
# slow FILE MS: the file to edit is in $src, the edited one in $dst
slow() {
  src=${slow[$1]:-$repo/$1}; n=$((n + 1)); dst=$w/slow$n.go; slow[$1]=$dst
  pkg=$(sed -n 's/^package //p' "$repo/$1" | head -1)
  printf 'package %s\n\nimport "time"\n\nfunc zzDelay(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }\n' "$pkg" > "$w/delay_$pkg.go"
  slow[$(dirname "$1")/zz_delay.go]=$w/delay_$pkg.go
}
# "// delay FILE FUNC MS": the function is slow, as on a busy machine
while read -r file fn ms; do
  slow "$file"
  sed "s/^func (.*) $fn(.*{\$/&\n\tzzDelay($ms)/" "$src" > "$dst"
done < <(sed -n 's#^// delay ##p' "$here/main.go.txt")
# "// delay-at FILE MS TEXT": a statement that begins with the text is late
while read -r file ms text; do
  slow "$file"
  awk -v t="$text" -v ms="$ms" '{s=$0; sub(/^[ \t]+/, "", s); if (index(s, t) == 1) print "zzDelay(" ms ")"; print}' "$src" > "$dst"
done < <(sed -n 's#^// delay-at ##p' "$here/main.go.txt")
for f in "${!slow[@]}"; do more="$more, \"$repo/$f\": \"${slow[$f]}\""; done
cat > "$w/overlay.json" <<J
{"Replace": {"$repo/zzdemo/main.go": "$here/main.go.txt", "$repo/zzdemo/kit.go": "$here/kit.go.txt"$more}}
J
race=
grep -q '^// run with -race' "$here/main.go.txt" && race=-race
go build $race -overlay "$w/overlay.json" -modfile "$w/go.mod" -o "$w/demo" ./zzdemo || exit 3
mkdir "$w/scratch" && cd "$w/scratch" && timeout -k 5 200 "$w/demo" > "$w/out" 2>&1
rc=$?
tail -c 3000 "$w/out"
grep -q '^WARNING: DATA RACE' "$w/out" && rc=1
exit $rc
