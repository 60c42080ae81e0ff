#!/bin/bash
# Runs demo.py on the Python extension built in the current directory's _build; fails when the binding misbehaves.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/polyops"
cp "$PWD"/py/*.py "$PWD"/_build/py/_polyops.*.so "$tmp/polyops/" || exit 2
g++ -O1 -shared -fPIC -o "$tmp/failnew.so" "$here/failnew.cpp" || exit 2
py=/opt/vp/venv/bin/python3
[ -x "$py" ] || py=python3
export PYTHONPATH="$tmp" PYTHONDONTWRITEBYTECODE=1 LD_PRELOAD="$tmp/failnew.so" FAILNEW="$tmp/failnew.so"
timeout 200 "$py" "$here/demo.py" MODE
