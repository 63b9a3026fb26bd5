#!/bin/bash
# builds the harness and the current tree once and checks the references and term rewrites
cd "$(dirname "$0")" && python3-vt engine/build.py std bn
