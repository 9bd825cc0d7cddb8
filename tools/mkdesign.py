#!/opt/venv/bin/python
"""Refreshes the tables of fixed defects and planted bugs in DESIGN.md (not used by any check).

Between the markers the text is replaced: <!-- fixes --> ... <!-- /fixes -->, <!-- seeded --> ... <!-- /seeded -->.
tools/caught.json says which checks saw each planted bug and which were missed at first.
"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        fixes = json.load(f)["findings"]
    ft = "| property | commit | what failed |\n|---|---|---|\n" + "".join(f"| {x['property']} | {x.get('commit', 'recorded, not repaired')} | {x['what']} |\n" for x in fixes)
    with open(os.path.join(HERE, "tools", "caught.json")) as f:
        caught = json.load(f)
    rows = []
    base = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(base)):
        with open(os.path.join(base, b, "meta.json")) as f:
            m = json.load(f)
        c = caught.get(b, {})
        rows.append(f"| {b}{'*' if c.get('missed') else ''} | {m['property']} | {', '.join(c.get('by', ['not caught']))} | {m['needs']} |\n")
    st = "| bug | property | caught by | needs |\n|---|---|---|---|\n" + "".join(rows)
    p = os.path.join(HERE, "DESIGN.md")
    with open(p) as f:
        s = f.read()
    for k, v in (("fixes", ft), ("seeded", st)):
        s = re.sub(rf"<!-- {k} -->.*?<!-- /{k} -->", lambda m: f"<!-- {k} -->\n{v}<!-- /{k} -->", s, flags=re.S)
    with open(p, "w") as f:
        f.write(s)


if __name__ == "__main__":
    main()
