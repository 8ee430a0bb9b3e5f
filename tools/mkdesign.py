#!/usr/bin/env python3
"""Put DESIGN.md together."""
import ast
import glob
import json
import os
import re
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(name):
    with open(os.path.join(HERE, name)) as fp:
        return fp.read()


out = [read("tools/design_head.md")]
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    src = read("props/%s.py" % p["id"].lower())
    vals = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(
            node.targets[0], ast.Name
        ):
            try:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    strata = re.findall(r'Stratum\(\s*"([^"]+)"', src)
    out.append("### %s – %s\n" % (p["id"], p["title"]))
    text = [
        "*Technique*: %s." % vals["TECHNIQUE"],
        "*Cases and oracle*: " + vals["RULE"],
        "*Bounds and trust*: " + vals["LEVEL_NOTE"],
        "*Beyond the tests*: " + p["why_tests_cant"],
        "*Strata*: %s." % ", ".join(strata),
    ]
    for t in text:
        out.append(textwrap.fill(t, 78) + "\n")
out.append(read("tools/design_tail.md"))
out.append("| bug | property | needs | caught by |")
out.append("|---|---|---|---|")
for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(path))
    out.append(
        "| %s | %s | %s | %s |"
        % (
            os.path.basename(os.path.dirname(path)),
            m["property"],
            m["needs"].replace("|", "\\|").replace("\n", " "),
            m.get("caught_by", m["property"]),
        )
    )
with open(os.path.join(HERE, "DESIGN.md"), "w") as fp:
    fp.write("\n".join(out) + "\n")
