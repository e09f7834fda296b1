""" showcase.py REPLAY: the minimised operations of a replay file """
import json, sys
d = json.load(open(sys.argv[1]))
for o in d["case"].get("ops", []):
    print(json.dumps(o, sort_keys=True)[:400])
print(d["message"][:1500])
