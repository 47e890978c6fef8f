#!/bin/bash
# Runs the real oracle binary against a scripted node on loopback. Exit 0: the property held.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec timeout 280 python3 "$here/scene.py"
