"""Dev tool: prints the table of planted changes from a planting log."""
import json, sys, os
STR = set("b01-and-view b02-agg-cache b02-del-missing b14-weights b15-empty-name b19-desc-order b08-phi-tol b08-naive-mass b10-cmp-f32 b12-isin-unique b16-int8 b19-pairwise b22-radius-le b33-rapidity b29-inf b15-sixty b25-same-pt".split()) | set(sys.argv[2:])
last = {}
for line in open(sys.argv[1]):
    r = json.loads(line); last[r["id"]] = r
print("| change | property | caught by | what it needs |\n|---|---|---|---|")
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{d}/meta.json")); r = last.get(d, {})
    hit = [k[6:] for k, v in r.items() if k.startswith("check ") and v == 1]
    print(f"| {d} | {m['property']} | {', '.join(hit) or '**missed**'}{' (strengthened)' if d in STR else ''} | {m['needs']} |")
