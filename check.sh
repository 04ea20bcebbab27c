#!/bin/bash
cd "$(dirname "$0")"
exec python3 engine/check.py "$@"
