"""Run in a process of its own with another hash seed: takes up a pickled configuration and answers like a fresh one?

Reads a pickle of a list of cases from stdin, writes a JSON list of answers.
"""
import json
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env  # noqa: E402

env.setup()

from vlib import observe, parse  # noqa: E402


def items(c):
    return list(c.rules.rules) + [n for k in (1, 2, 3) for n in c.nat[k]]


def ports(c):
    out = []
    for r in c.rules.rules:
        for n in (r.src, r.dst):
            p = getattr(n, "port", None) if n is not None else None
            if p is not None:
                out.append(p)
    for g in c.groups.port.values():
        out += list(g.objects)
    return out


def sel(c, caf):
    pos = {id(x): n for n, x in enumerate(items(c))}
    return sorted(pos[id(x)] for x in c.filter(parse.caf(caf)))


def equal(a, b):
    """Of two things in the same place: (equal, equal and of one hash)."""
    try:
        same = bool(a == b)
        return [same, same and hash(a) == hash(b)]
    except TypeError:
        return [same, None]


def main():
    answer, sys.stdout = sys.stdout, open(os.devnull, "w")  # the code under test prints
    out = []
    for c in pickle.load(sys.stdin.buffer):
        load = {"asa": parse.asa, "ios": parse.ios, "pf": parse.pf}[c["fmt"]]
        got = []
        try:
            fresh = load(c["text"])
            for conf in (pickle.loads(c["pickle"]), fresh):
                got.append({"snap": observe.snapshot(conf), "sel": [sel(conf, t) for t in c["cafs"]]})
            conf = pickle.loads(c["pickle"])
            again = load(c["text"])
            got.append([equal(a, b) for a, b in zip(ports(fresh), ports(conf))])
            got.append([equal(a, b) for a, b in zip(ports(fresh), ports(again))])
        except Exception as e:
            got = [f"{type(e).__name__}: {e}"]
        out.append(got)
    json.dump(out, answer)


main()
