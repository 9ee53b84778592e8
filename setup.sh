#!/bin/bash
# builds the harness and the tools under test, offline
cd "$(dirname "$0")" && exec ./check.sh --build
