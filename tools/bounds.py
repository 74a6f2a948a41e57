"""Print, for every property, the sections of its last run (from evidence/) as markdown."""
import json, glob, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../evidence/*.json"))):
    j = json.load(open(f)); c = j["coverage"]
    print(f"\n{j['property']} {j['tier']} ({j['wall_s']:.1f} s, {c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} replayed):")
    for s in c["sections"]:
        print(f"- {s['name']}: {s['bound']}; {s['states']} states" + (f", depth {s['depth']}" if s['kind'] == 'bfs' else "") + ("" if s["complete"] else " (incomplete)"))
