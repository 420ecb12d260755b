#!/bin/sh
# Nothing is installed: this only checks that the toolchain the checks need is there.
set -e
cd "$(dirname "$0")/.."
command -v javac >/dev/null && command -v java >/dev/null
test -r /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -B -c 'import sys; sys.path[:0]=["harness","/repo"]; import folx, tlc; t=tlc.Tlc(); t.close(); print("ok")'
mkdir -p evidence
