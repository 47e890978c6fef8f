#!/bin/bash
# Runs the real command line tool against a scripted node on loopback. Exit 0: the property held.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec timeout 280 python3 "$here/scene.py"
