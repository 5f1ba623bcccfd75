#!/bin/bash
# tools/setsrc.sh ID [extra sources]: put the SOURCES line proposed by srcs.py in a harness
cd "$(dirname "$0")/.." && L=$(python3 tools/srcs.py "$1") && shift 0
F=harness/$1.cc; E="${*:2}"
sed -i '/^\/\/ SOURCES:/d' "$F"; sed -i "1a $L $E" "$F"
