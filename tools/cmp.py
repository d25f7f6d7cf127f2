import json, sys
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
o = set(json.load(open(sys.argv[1]))["passed"])
print("pass" if b <= o else f"BROKEN {len(b - o)}: {sorted(b - o)[:2]}")
