#!/bin/bash
# setup_cmd: builds what the checks then rebuild incrementally
cd "$(dirname "$0")/.." && bash lib/build.sh asan
