#!/bin/sh
# regenerates all.go: the list of harnesses
cd "$(dirname "$0")"
{ echo "package h"; echo; echo "// Code generated by gen.sh."; echo; echo "// All lists the harnesses by name."; echo "var All = map[string]func(){"
grep -h '^func [A-Z][A-Za-z0-9]*() {' $(ls *.go | grep -v all.go) | sed 's/func \([A-Za-z0-9]*\)() {/\t"\1": \1,/' | sort; echo "}"; } > all.go
gofmt -w all.go
