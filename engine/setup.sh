#!/bin/bash
# builds the MIR dumper and the dependencies of the crate once
cd "$(dirname "$0")/.." && python3 engine/dump.py
