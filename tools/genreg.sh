#!/bin/bash
# Writes harness/h/registry.go: the harness functions by name.
cd /verif/harness/h || exit 1
{
echo "// Code generated by tools/genreg.sh; DO NOT EDIT."
echo "package h"
echo
echo "var Registry = map[string]func(){"
grep -hoE '^func ((C[0-9]+|SELF)_[A-Za-z0-9_]+)\(\)' *.go | sed -E 's/^func (.*)\(\)/\1/' | sort | sed -E 's/(.*)/\t"\1": \1,/'
echo "}"
} > registry.go
gofmt -w registry.go
