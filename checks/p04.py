"""ASA/FWSM access rules come out of the parser as written."""
from vlib import asa, big, gen, observe, parse
from vlib.core import Sub

ID = "P04"
RULE = (
    "Hypothesis draws an ASA/FWSM configuration as a list of items (names, objects, groups, time ranges, interfaces, "
    "extended/standard/webtype access-list lines with remarks), prints it, parses it and compares every rule field "
    "with the value computed from the items, and so the objects, groups and time ranges reached through it. Non-trivial: at least two rules and at least two of the classes "
    "group, object, name, port, icmp, remark, option, ipv6, special protocol."
)


def classes(case):
    c = set()
    for it in case["items"]:
        if it["k"] != "rule":
            continue
        for f in ("src", "dst"):
            h = it.get(f)
            if h:
                c.add({"grp": "group", "obj": "object", "host": "addr", "net": "addr"}.get(h[0], "special"))
                if h[0] in ("host", "net") and h[-1]:
                    c.add("name")
                if h[0] in ("host", "net") and ":" in h[1]:
                    c.add("ipv6")
        for f in ("sport", "dport"):
            if it.get(f):
                c.add("port-" + it[f][0])
        if it.get("icmp"):
            c.add("icmp")
        if it["remark"]:
            c.add("remark")
        for o in it.get("opts") or []:
            c.add("opt-" + o[0])
        if it.get("proto") and it["proto"][0] != "proto":
            c.add("proto-" + it["proto"][0])
        c.add(it["ext"])
        c.add(it["mode"])
    return c


def check(case, ctx):
    cl = classes(case)
    ctx.label(*cl)
    n = sum(it["k"] == "rule" for it in case["items"])
    ctx.note(n >= 2 and len(cl - {"extended", "permit", "deny", "addr"}) >= 2, asa.text(case))
    with ctx.sut("parsing a valid configuration"):
        c = parse.asa(asa.text(case))
        got = observe.rules(c)
        opened = observe.reached(c)
    ctx.eq("access rules", got, asa.rules(case))
    # names in a rule stand for what the configuration defines under them
    ctx.eq("definitions behind the access rules", opened, asa.reached(case))


SUBS = [
    Sub("mixed", lambda: asa.config(max_rules=7, max_defs=7), check, 500, 16000),
    Sub("rules", lambda: asa.config(max_rules=12, max_defs=3, min_rules=4, ifaces=False), check, 300, 8000),
    Sub("big", lambda: big.grown("asa", asa.config(max_rules=5, max_defs=5, min_rules=1, ifaces=False)), check, 16, 600),
]
