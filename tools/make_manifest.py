"""Write MANIFEST.json from properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
    "C27": "finite-difference oracle: agreement judged where the difference ladder converges",
    "C28": "thread schedules are sampled with a 10 us switch interval, not enumerated",
    "C25": "python-fsps is absent: a recording stand-in with its interface",
}
checks = []
for p in props:
    i = p["id"]
    cmd = "/opt/venv/bin/python run.py " + i
    checks.append(dict(
        property=i, quick_cmd=cmd, thorough_cmd=cmd + " --thorough",
        technique="runtime monitoring: oracles over recorded calls of the real code under hostile seeded workloads",
        level="exploration",
        level_note=NOTE.get(i, "sampled inputs, seeded and replayable; no claim beyond the executions observed")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selfcheck.py", checks=checks, not_applicable=[])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks))
