"""Compares a test result file with the recorded baseline (development helper)."""
import json
import sys
a = json.load(open('/opt/vp/BASELINE.json'))
b = json.load(open(sys.argv[1] if len(sys.argv) > 1 else '/tmp/t.json'))
miss = sorted(set(a['stable']) - set(b['passed']))
print("stable", len(a['stable']), "missing", len(miss), miss[:10])
sys.exit(1 if miss else 0)
