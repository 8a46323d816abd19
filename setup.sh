#!/bin/sh
# builds the MIR driver and the dependencies' metadata, so that a check only re-analyses the workspace crates
cd "$(dirname "$0")" && python3 -B sa/extract.py && python3 -B sa/extract.py --debug
