"""editprop.py ID FIELD < text : replaces one text field of a property"""
import json, sys, os
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ps = [json.loads(l) for l in open(P)]
for p in ps:
    if p["id"] == sys.argv[1]:
        t = " ".join(sys.stdin.read().split())
        if sys.argv[2] == "quantifier": p["quantifier"]["text"] = t
        else: p[sys.argv[2]] = t
open(P, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in ps))
