#!/usr/bin/env python3
"""replay.py <replay file>: rebuilds the harness from /repo and runs one recorded case (exit 1: it fails)."""
import json, sys
import check

path = sys.argv[1]
profile = json.load(open(path))["profile"]
if not check.build([profile]):
    sys.exit(2)
rc = check.run([check.binary(profile), "replay", path, "--findings", check.FINDINGS], 120)
print(f"exit {rc}")
sys.exit(1 if rc is None or rc < 0 else rc)
