#!/bin/bash
# build both harness crates (a check rebuilds what changed)
cd "$(dirname "$0")" || exit 1
./run.sh base list && ./run.sh full list
