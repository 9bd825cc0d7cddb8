"""Collapsing and sorting groups keeps their address and service sets."""
import json

from hypothesis import strategies as st

from vlib import asa, build, gen, observe, parse
from vlib import netmodel as nm
from vlib.core import Sub

ID = "P15"
RULE = (
    "Hypothesis draws address groups (hosts, networks, range/subnet/host objects, nested groups, both IP versions, with "
    "adjacent, nested, equal and whole-space members) built through the public classes, and whole ASA configurations with "
    "service, port and protocol groups, and collapses and sorts them in place and as copies in a drawn order. Address "
    "sets are compared on integer intervals, sorted members with their permutation. Non-trivial: at least three members "
    "of which two overlap or touch (resp. a group with at least three members was sorted)."
)
ASSUMPTIONS = ["any/any4/any6 members are left out of collapse, which is documented to drop them", "the order of names among numbers is not specified"]


@st.composite
def atom_spec(draw):
    k = draw(st.integers(0, 9))
    if k <= 3:
        return draw(gen.host())
    if k <= 7:
        return draw(gen.net())
    return ["obj", draw(gen.name()), draw(st.one_of(gen.host(), gen.net(), gen.addr_range()))]


@st.composite
def near_spec(draw, s):
    """Next to, inside or around a plain one."""
    v, lo, hi = nm.atoms(s)[0]
    k = draw(st.integers(0, 5))
    size = hi - lo + 1
    bits = nm.BITS[v]
    p = bits - (size.bit_length() - 1)
    if k == 0:
        return ["net", nm.fmt(v, lo ^ size if lo ^ size <= nm.MAX[v] else lo), p]
    if k == 1:
        return ["host", nm.fmt(v, min(hi + 1, nm.MAX[v]))]
    if k == 2:
        return ["host", nm.fmt(v, max(lo - 1, 0))]
    if k == 3:
        return ["net", nm.fmt(v, lo), min(bits, p + 1)]
    if k == 4:
        return ["net", nm.fmt(v, hi), max(0, p - 1)]
    return list(s)


@st.composite
def members(draw, depth=2, flat=False):
    ms = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 7))
        plain = [m for m in ms if m[0] in ("host", "net")]
        if k <= 3 and plain:
            ms.append(draw(near_spec(draw(st.sampled_from(plain)))))
        elif k == 4 and depth and not flat:
            ms.append(["grp", draw(gen.name()), draw(members(depth - 1))])
        else:
            s = draw(atom_spec())
            ms.append(s[2] if flat and s[0] == "obj" and s[2][0] != "range" else s if not flat or s[0] != "obj" else ["host", s[2][1]])
    return draw(st.permutations(ms))


@st.composite
def large_cases(draw):
    """Hundreds of addresses in any order."""
    ms = draw(members(1, True))
    at, step, n = draw(gen.v4_int()), draw(st.sampled_from([1, 1, 1, 2, 3, 128])), draw(st.integers(40, 400))
    plen = draw(st.sampled_from([32, 32, 31, 25]))
    for i in draw(st.sampled_from([range(n), range(n - 1, -1, -1), sorted(range(n), key=lambda i: i * 7919 % 1009), sorted(range(n), key=lambda i: i % 4)])):
        a = (at + i * step) & nm.MAX[4]
        ms.insert(len(ms) // 2, ["host", nm.fmt(4, a)] if plen == 32 else ["net", nm.fmt(4, a), plen])
    ops = draw(st.lists(st.sampled_from(["collapse copy", "sort copy", "expand copy", "sort", "collapse", "expand"]), min_size=1, max_size=3))
    return {"ms": ms, "ops": ops}


@st.composite
def direct_cases(draw):
    flat = draw(st.booleans())
    ops = draw(st.lists(st.sampled_from(["collapse copy", "sort copy", "expand copy", "sort", "collapse", "expand"]), min_size=1, max_size=5))
    return {"ms": draw(members(2, flat)), "ops": ops}


def group_spec(g):
    return observe.host_spec(g)


def sets(spec):
    return nm.normal(nm.atoms(spec))


def covers(v, lo, hi):
    """Length of the shortest list of networks that covers lo..hi."""
    n = 0
    while lo <= hi:
        size = lo & -lo if lo else nm.MAX[v] + 1
        while size > hi - lo + 1:
            size >>= 1
        lo += size
        n += 1
    return n


def ascending(ctx, what, g):
    last = {}
    for m in g.objects:
        s = observe.host_spec(m)
        if s[0] in ("host", "net"):
            v, lo, hi = nm.atoms(s)[0]
            ctx.true(f"{what}: ascending", last.get(v, -1) <= lo, repr(g.objects))
            last[v] = lo


def bag(xs):
    return sorted(json.dumps(x) for x in xs)


def plain(g):
    return all(observe.host_spec(m)[0] in ("host", "net") and not hasattr(m, "addresses") for m in g.objects)


def check_collapsed(ctx, what, g, want):
    ctx.eq(f"{what}: addresses", sets(group_spec(g)), want)
    n = sum(covers(v, lo, hi) for v in (4, 6) for lo, hi in want[v])
    ctx.true(f"{what}: smallest list has {n}", len(g.objects) == n and plain(g), repr(g.objects))
    ascending(ctx, what, g)


def check_direct(case, ctx):
    spec = ["grp", "G", case["ms"]]
    g = build.obj(spec)
    g.description = "d"
    want = sets(spec)
    nested = any(m[0] in ("grp", "obj") for m in case["ms"])
    ctx.label("nested or object" if nested else "flat")
    for op in case["ops"]:
        before = group_spec(g)
        deep = any(hasattr(m, "addresses") or hasattr(m, "objects") for m in g.objects)
        ctx.label(op)
        if op == "collapse" and deep:
            e = ctx.must_raise("collapse in place of an unexpanded group", g.collapse)
            ctx.true("refusal is a ValueError", isinstance(e, ValueError), repr(e))
            ctx.eq("refused collapse leaves the group", group_spec(g), before)
            continue
        with ctx.sut(op):
            if op.endswith("copy"):
                r = getattr(g, op.split()[0])(insitu=False)
            else:
                r = getattr(g, op)()
        ctx.eq(f"{op}: name, description, class", [r.name, r.description, type(r).__name__], ["G", "d", "NetworkGroup"])
        ctx.eq(f"{op}: addresses", sets(group_spec(r)), want)
        if op.endswith("copy"):
            ctx.true(f"{op}: is another group", r is not g)
            ctx.eq(f"{op}: original", group_spec(g), before)
        else:
            ctx.true(f"{op}: is the group", r is g)
        if op in ("collapse", "collapse copy", "sort copy"):
            check_collapsed(ctx, op, r, want)
        elif op == "sort":
            ctx.eq(f"{op}: permutation", bag([group_spec(m) for m in r.objects]), bag(before[2]))
            ascending(ctx, op, r)
        elif op == "expand copy":
            ctx.true(f"{op}: flat", plain(r), repr(r.objects))
        if op.endswith("copy"):
            r.objects.clear()
            ctx.eq(f"{op}: original after changing the copy", group_spec(g), before)
    ats = nm.atoms(spec)
    touch = sum(len(v) for v in want.values()) < len(ats)
    ctx.note(len(ats) >= 3 and touch, json.dumps(case))


# --- groups of a parsed configuration --------------------------------------------


@st.composite
def parsed_cases(draw):
    cfg = draw(asa.config(max_rules=1, max_defs=14, min_rules=0, fqdn=False, times=False, ifaces=False))
    names = [[it["k"], it["n"]] for it in cfg["items"] if it["k"] in ("ngrp", "sgrp", "tgrp", "pgrp") and it["ms"]]
    ops = []
    if names:
        ops = draw(st.lists(st.tuples(st.sampled_from(["sort", "sort copy", "sort copy", "expand copy"]), st.sampled_from(names)).map(list), min_size=1, max_size=8))
    return {"cfg": cfg, "ops": ops}


WHERE = {"ngrp": "network", "sgrp": "service", "tgrp": "port", "pgrp": "protocol"}


def number(kind, m):
    """Sort key of a member where the order is by numbers, else None."""
    if kind == "pgrp" and m[0] == "proto" and m[1].isdigit():
        return [int(m[1])]
    if kind == "tgrp" and m[0] in ("port", "range"):
        n = m[2] if m[0] == "port" else m[1]
        return [int(n)] if n.isdigit() else None
    if kind == "sgrp" and m[0] == "svc" and "type" not in m[1]:
        key = [m[1]["p"]]
        for side in ("src", "dst"):
            p = m[1].get(side)
            if p is None:
                key.append(0)
            else:
                n = p[2] if p[0] == "port" else p[1]
                if not n.isdigit():
                    return None
                key.append(int(n))
        return key
    return None


def flatten(c, g, kind):
    out = []
    for m in g.objects:
        if type(m) is type(g):
            out += flatten(c, m, kind)
        else:
            x = observe.member(m)
            if x[0] == "sobj":
                x = ["svc", observe.service(m)]
            out.append(x)
    return out


def check_parsed(case, ctx):
    with ctx.sut("parsing"):
        c = parse.asa(asa.text(case["cfg"]))
    big = False
    for op, (kind, n) in case["ops"]:
        ctx.label(f"{op} {kind}")
        g = getattr(c.groups, WHERE[kind])[n]
        before = observe.definitions(c)
        mem = [observe.member(m) for m in g.objects]
        flat = flatten(c, g, kind)
        with ctx.sut(f"{op} of {kind} {n}"):
            r = g.sort() if op == "sort" else getattr(g, op.split()[0])(insitu=False)
        ctx.eq(f"{op}: name, class", [r.name, observe.txt(r.description), type(r)], [n, observe.txt(g.description), type(g)])
        if kind == "tgrp":
            ctx.eq(f"{op}: protocol of the group", r.protocol.name, g.protocol.name)
        got = [observe.member(m) for m in r.objects]
        if op == "sort":
            ctx.true("sort in place returns the group", r is g)
            ctx.eq(f"{op} {n}: permutation", bag(got), bag(mem))
            before[WHERE[kind]].pop(n)
            after = observe.definitions(c)
            after[WHERE[kind]].pop(n)
            ctx.eq(f"{op} {n}: everything else", after, before)
        else:
            ctx.true(f"{op}: is another group", r is not g)
            if kind == "ngrp":
                ctx.eq(f"{op} {n}: addresses", sets(group_spec(r)), sets(group_spec(g)))
            else:
                ctx.eq(f"{op} {n}: members", bag(got), bag(flat))
            if op == "expand copy" and kind != "ngrp":
                ctx.eq(f"{op} {n}: members in order", got, flat)
            r.objects.clear()
            ctx.eq(f"{op} {n}: configuration", observe.definitions(c), before)
        if op.startswith("sort"):
            big = big or len(got) >= 3
            if kind == "ngrp":
                if op == "sort":
                    ascending(ctx, f"{op} {n}", g)
            else:
                keys = [k for k in (number(kind, m) for m in got) if k is not None]
                ctx.true(f"{op} {n}: ascending", keys == sorted(keys), json.dumps(got))
    ctx.note(big, asa.text(case["cfg"])[:1500] + "\n--- " + json.dumps(case["ops"]))


SUBS = [
    Sub("addresses", direct_cases, check_direct, 6000, 200000),
    Sub("large", large_cases, check_direct, 150, 5000),
    Sub("parsed", parsed_cases, check_parsed, 600, 16000),
]
