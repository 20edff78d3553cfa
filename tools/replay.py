#!/usr/bin/env python3
"""Shows a replay file and what the model and the crate say about its text now."""
import json, subprocess, sys
d = json.load(open(sys.argv[1]))
for k in ("property", "job", "entry", "text", "detail"):
    print(f"{k}: {d[k]}")
print("--- now ---")
sys.stdout.flush()
try:
    r = subprocess.run(["/verif/mc/target/release/mc", "one", "QBU"[d["code"]]], input=d["text"].encode(), timeout=60)
    sys.exit(0 if r.returncode == 0 else 1)
except subprocess.TimeoutExpired:
    print("no answer within 60 s")
    sys.exit(1)
