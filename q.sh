#!/bin/bash
# quick look at one check: only tasks that are not clean, plus the summary
cd "$(dirname "$0")" && python3-vt check.py "$@" -v | grep -Ev "val=[0-9]+$" | cut -c1-1500
