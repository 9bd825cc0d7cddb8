"""Expanding groups and objects keeps the meaning of the rules."""
from hypothesis import strategies as st

from vlib import asa, big, cafgen, ios, observe, parse, world
from vlib import netmodel as nm
from vlib.core import Sub

ID = "P14"
RULE = (
    "Hypothesis draws ASA and IOS configurations rich in nested and shared groups and objects of every kind and expands "
    "them: the whole configuration, or single groups in place or as copies in a drawn order. Every expanded group must "
    "list the flattened members in order (an object stands for addresses covering exactly its own, a service object for "
    "its service) computed from the drawn definitions; descriptions, rules, what rules cover and what filters select must "
    "stay. Non-trivial: a group nested in another one or holding an object was expanded."
)


def flat_net(n, defs):
    """Expected flattened members: ["m", host] or ["o", atoms of the object]."""
    out = []
    for m in defs["ngrp"][n]["ms"]:
        if m[0] == "grp":
            out += flat_net(m[1], defs)
        elif m[0] == "obj":
            out.append(["o", nm.atoms(defs["nobj"][m[1]]["spec"])])
        else:
            out.append(["m", m])
    return out


def flat_other(kind, n, defs):
    out = []
    for m in defs[kind][n]["ms"]:
        if m[0] == {"sgrp": "sgrp", "tgrp": "pgrp", "igrp": "igrp", "pgrp": "prgrp"}[kind]:
            out += flat_other(kind, m[1], defs)
        elif m[0] == "sobj":
            out.append(["svc", defs["sobj"][m[1]]["svc"]])
        else:
            out.append(m)
    return out


def definitions(cfg):
    d = {k: {} for k in ("ngrp", "sgrp", "tgrp", "igrp", "pgrp", "nobj", "sobj")}
    for it in cfg["items"]:
        if it["k"] in d:
            d[it["k"]][it["n"]] = it
    return d


WHERE = {"ngrp": "network", "sgrp": "service", "tgrp": "port", "igrp": "icmp", "pgrp": "protocol"}


def check_members(ctx, what, fmt, kind, n, group, defs):
    if kind != "ngrp":
        ctx.eq(f"{what}: members of {kind} {n}", [observe.member(m) for m in group.objects], flat_other(kind, n, defs))
        return
    got = list(group.objects)
    for k, v in flat_net(n, defs):
        if k == "m":
            ctx.true(f"{what}: {n} has too few members", got)
            g = got.pop(0)
            if fmt == "ios":
                ctx.eq(f"{what}: member of {n}", observe.atom(g), ios.atom(v))
            else:
                ctx.eq(f"{what}: member of {n}", observe.member(g), asa.e_host(v))
            continue
        # addresses that tile the object
        if v == [("all",)]:
            ctx.true(f"{what}: {n} has too few members", got)
            ctx.eq(f"{what}: object in {n}", nm.atoms(observe.host_spec(got.pop(0))), v)
            continue
        (ver, lo, hi), = v
        at = lo
        while at <= hi:
            ctx.true(f"{what}: {n} has too few members", got)
            g = got.pop(0)
            ctx.true(f"{what}: {n} still holds {type(g).__name__}", not hasattr(g, "addresses") and not hasattr(g, "objects"))
            a = nm.atoms(observe.host_spec(g))
            ctx.true(f"{what}: object in {n} covers {a}, not from {at}", len(a) == 1 and a[0][0] == ver and a[0][1] == at and a[0][2] <= hi)
            at = a[0][2] + 1
    ctx.true(f"{what}: {n} has surplus members", not got, repr(got))


def kind_groups(c, defs):
    for kind, w in WHERE.items():
        for n in defs[kind]:
            yield kind, n, getattr(c.groups, w)[n]


def load(case):
    return parse.asa(asa.text(case["cfg"])) if case["fmt"] == "asa" else parse.ios(ios.text(case["cfg"]))


def text(case):
    return asa.text(case["cfg"]) if case["fmt"] == "asa" else ios.text(case["cfg"])


def coverage(c):
    out = []
    for r in c.rules.rules:
        row = []
        for n in (r.src, r.dst):
            a = nm.atoms(observe.host_spec(n.host))
            row.append([nm.normal([x for x in a if x[0] in (4, 6)]), sorted({x for x in a if x[0] not in (4, 6)})])
        out.append(row)
    return out


def select(c, leaves):
    pos = {id(r): i for i, r in enumerate(c.rules.rules + [n for k in (1, 2, 3) for n in c.nat[k]])}
    return [sorted(pos[id(x)] for x in c.filter(parse.caf(cafgen.p_leaf(l))) if id(x) in pos) for l in leaves]


GROUPS = {"NetworkGroup": "network", "ServiceGroup": "service", "PortGroup": "port", "ICMPGroup": "icmp", "ProtocolGroup": "protocol"}


def referred(r):
    """The groups a rule refers to, with their kind."""
    found = [r.protocol, r.src.host, r.src.port, r.dst.host, r.dst.port, getattr(r, "icmp", None)]
    return [(GROUPS[type(x).__name__], x) for x in found if type(x).__name__ in GROUPS]


def rest(c):
    """What expansion must not touch."""
    s = observe.snapshot(c)
    s.pop("groups", None)
    for k in WHERE.values():
        if k in s:
            s[k] = {n: v[0] for n, v in s[k].items()}
    return s


@st.composite
def cases(draw, services=False, large=False):
    fmt = "asa" if services else draw(st.sampled_from(["asa", "asa", "asa", "ios"]))
    if large:
        base = asa.config(max_rules=3, max_defs=5, min_rules=1, fqdn=False, times=False, remarks=False, ifaces=False, kinds=("extended",)) if fmt == "asa" else ios.config(acls=(1, 1), max_defs=3, n_ifaces=(0, 0), routes=0, max_entries=3)
        cfg = draw(big.grown(fmt, base, ways=("nest", "members", "fan")))
    elif services:
        cfg = draw(asa.config(max_rules=2, max_defs=16, fqdn=False, times=False, remarks=False, use_names=False, ifaces=False, kinds=("extended",), defkinds=["sobj", "sobj", "sobj", "sgrp", "sgrp", "sgrp", "tgrp", "igrp", "pgrp", "ngrp"]))
    elif fmt == "asa":
        cfg = draw(asa.config(max_rules=4, max_defs=14, min_rules=1, nat=2, fqdn=False, times=False, remarks=False, kinds=("extended", "standard")))
    else:
        cfg = draw(ios.config(acls=(1, 2), max_defs=8, n_ifaces=(0, 0), routes=0, max_entries=3))
    vs = world.views(fmt, cfg)
    ivs = []
    for _, s, d in vs:
        cafgen.bounds(s, ivs)
        cafgen.bounds(d, ivs)
    leaves = [draw(cafgen.leaf([v[0] for v in vs] or ["A"], ivs)) for _ in range(draw(st.integers(1, 4)))]
    names = [[k, n] for k, m in definitions(cfg).items() if k in WHERE for n in m]
    steps = []
    if names:
        steps = draw(st.lists(st.tuples(st.sampled_from(["copy", "copy", "inplace"]), st.sampled_from(names)).map(list), max_size=6))
    return {"fmt": fmt, "cfg": cfg, "leaves": leaves, "steps": steps}


def nested(defs):
    return any(m[0] in ("grp", "obj", "sgrp", "sobj", "pgrp", "igrp", "prgrp") for k in WHERE for it in defs[k].values() for m in it["ms"])


def check(case, ctx):
    defs = definitions(case["cfg"])
    fmt = case["fmt"]
    ctx.label(fmt)
    for k in WHERE:
        for it in defs[k].values():
            for m in it["ms"]:
                if m[0] in ("grp", "obj", "sgrp", "sobj", "pgrp", "igrp", "prgrp"):
                    ctx.label(f"{k} holds {m[0]}")
    with ctx.sut("parsing"):
        c = load(case)
        r0, cov0, sel0, s0 = rest(c), coverage(c), select(c, case["leaves"]), observe.snapshot(c)
    # single groups, as copies and in place
    done = set()
    for how, (kind, n) in case["steps"]:
        g = getattr(c.groups, WHERE[kind])[n]
        with ctx.sut(f"expanding {kind} {n}: {how}"):
            before = observe.snapshot(c)
            e = g.expand(insitu=False) if how == "copy" else g.expand()
        check_members(ctx, f"expand {how}", fmt, kind, n, e, defs)
        ctx.eq("name and description", [e.name, observe.txt(e.description), type(e).__name__], [n, observe.txt(g.description), type(g).__name__])
        if how == "copy":
            ctx.true("copy is another object", e is not g)
            e.objects.clear()
            ctx.eq(f"configuration after expanding a copy of {n}", observe.snapshot(c), before)
        else:
            ctx.true("in place returns the group", e is g)
            done.add((kind, n))
    if not any(h == "inplace" for h, _ in case["steps"]):
        ctx.eq("configuration after copies only", observe.snapshot(c), s0)
    with ctx.sut("expanding the configuration"):
        c.expand()
        r1, cov1, sel1 = rest(c), coverage(c), select(c, case["leaves"])
    for kind, n, g in kind_groups(c, defs):
        check_members(ctx, "config expanded", fmt, kind, n, g, defs)
    # the groups the rules refer to are those groups
    for i, r in enumerate(c.rules.rules):
        for w, g in referred(r):
            ctx.eq(f"members of {w} group {g.name}, as rule {i} has it", [observe.member(m) for m in g.objects], [observe.member(m) for m in getattr(c.groups, w)[g.name].objects])
    ctx.eq("apart from the members", r1, r0)
    ctx.eq("addresses the rules cover", cov1, cov0)
    ctx.eq("selections of " + " | ".join(cafgen.p_leaf(l) for l in case["leaves"]), sel1, sel0)
    with ctx.sut("expanding again"):
        s1 = observe.snapshot(c)
        c.expand()
        s2 = observe.snapshot(c)
    ctx.eq("expanded twice", s2, s1)
    # expanding is about what the groups hold then
    done = False
    for n, (kind, name, g) in enumerate(list(kind_groups(c, defs))):
        if not g.objects or (len(name) + n) % 3 == 0:
            continue
        last = g.objects[-1]
        with ctx.sut("putting a group in place of a member"):
            inner = g.expand(insitu=False)
            inner.objects[:] = [last]
            if len(name) % 2:
                g.objects[-1] = inner
            else:
                g.add(inner)
            want = [id(m) for m in g.objects if m is not inner] + [id(last)]
            e = g.expand(insitu=False)
            ctx.eq(f"{kind} {name} with another group in it, expanded as a copy", [id(m) for m in e.objects], want)
            e = g.expand()
        ctx.eq(f"{kind} {name} with another group in it, expanded", [id(m) for m in g.objects], want)
        done = True
    ctx.label(*["changed and expanded again"] if done else [])
    ctx.note(nested(defs), text(case)[:1500])


SUBS = [Sub("expand", cases, check, 700, 20000), Sub("services", lambda: cases(True), check, 300, 9000), Sub("big", lambda: cases(large=True), check, 40, 1500)]
