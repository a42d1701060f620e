#!/bin/bash
# Every check builds what it needs by itself; this only makes sure that it can be built.
cd "$(dirname "$0")" && go version && ./check.sh C22 build
