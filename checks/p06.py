"""IOS access lists come out of the parser as written."""
from vlib import big, ios, observe, parse
from vlib.core import Sub

ID = "P06"
RULE = (
    "Hypothesis draws an IOS configuration (object-groups, named standard/extended access lists with sequence numbers "
    "and remarks, numbered access lists, ipv6 access-lists, interfaces, routes), prints it, parses it and compares every "
    "rule field and group member with the items; addresses are compared as address sets. Non-trivial: at least two "
    "rules and at least two of the classes wildcard, group, port, icmp, option, remark, sequence, ipv6, numbered."
)


def classes(case):
    c = set()
    for n, t, e in ios.raw_rules(case):
        c.add("type-" + t)
        for f in ("src", "dst"):
            if f in e:
                h = e[f]
                c.add("addr-" + h[0] + ("-contiguous" if h[0] == "wild" and ios.contiguous(h[2]) else ""))
        for f in ("sport", "dport"):
            if e.get(f):
                c.add("port-" + e[f][0])
        if e.get("icmp"):
            c.add("icmp")
        if e["remark"]:
            c.add("remark")
        if e.get("seq") is not None:
            c.add("sequence")
        for k, _ in e["opts"]:
            c.add("opt-" + k)
        if (e.get("proto") or ["proto"])[0] != "proto":
            c.add("proto-group")
    if any(it["k"] == "nacl" for it in case["items"]):
        c.add("numbered")
    return c


def check(case, ctx):
    cl = classes(case)
    ctx.label(*cl)
    ctx.note(len(ios.raw_rules(case)) >= 2 and len(cl) >= 4, ios.text(case))
    with ctx.sut("parsing a valid configuration"):
        c = parse.ios(ios.text(case))
        got = observe.ios_rules(c)
        grp = observe.ios_groups(c)
    ctx.eq("access rules", got, ios.rules(case))
    ctx.eq("object groups", grp, ios.groups(case))


SUBS = [
    Sub("acls", lambda: ios.config(acls=(1, 4), n_ifaces=(0, 1), routes=1), check, 700, 20000),
    Sub("long", lambda: ios.config(acls=(1, 2), max_entries=12, max_defs=3, n_ifaces=(0, 0), routes=0), check, 300, 8000),
    Sub("big", lambda: big.grown("ios", ios.config(acls=(1, 2), n_ifaces=(0, 0), routes=0)), check, 24, 900),
]
