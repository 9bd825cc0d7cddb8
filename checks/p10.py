"""A name stands for exactly the definition written under that name."""
from hypothesis import strategies as st

from vlib import asa, observe, parse
from vlib.core import Sub

ID = "P10"
RULE = (
    "Hypothesis draws a family of names that are prefixes, extensions or case variants of one another, defines objects, "
    "groups, services, time ranges, names and interfaces under them (each with content of its own) in a shuffled order, "
    "and refers to every one of them from rules, other groups and NAT entries (ASA, IOS, pfSense). Every reference must "
    "resolve to the content of the definition with exactly that name; a second sub-check adds one reference to a name "
    "of the family that is not defined for that kind, which must be refused. Non-trivial: at least two definitions of "
    "one kind of which one name is a prefix of the other (resp. the undefined name is a prefix, an extension or a case variant of a defined one)."
)

BASES = ["web", "Srv", "a", "dmz", "n", "ports", "x_y", "log-srv", "host9", "tcp-all"]
STEPS = ["-1", "1", "0", "-", "_", ".", "-b", ".c", "-1-1", "-10", "z"]
# references printed at a place where a longer defined name would also fit
KINDS = ["nobj", "ngrp", "sobj", "sgrp", "tgrp", "igrp", "pgrp", "time", "name", "iface"]


@st.composite
def family(draw, n):
    base = draw(st.sampled_from(BASES))
    names = [base]
    while len(names) < n:
        k = draw(st.integers(0, 7))
        src = draw(st.sampled_from(names))
        if k <= 5:
            c = src + draw(st.sampled_from(STEPS))
        elif k == 6:
            c = src.swapcase()
        else:
            c = draw(st.sampled_from(BASES))
        if c not in names:
            names.append(c)
        else:
            names.append(c + draw(st.sampled_from("23456789")) + str(len(names)))
    return names


def ok(kind, n):
    if kind in ("name", "iface"):
        # also used where an address could stand; there these heads are keywords
        return (n[0].isalpha() or n[0] == "_") and not n.startswith(("any", "host", "object", "interface", "ip", "range"))
    return True


@st.composite
def cases(draw, miss=False):
    names = draw(family(draw(st.integers(3, 7))))
    defs = []
    used = set()
    # objects and groups share one name space on the device; names, time ranges and interfaces have their own
    shared = draw(st.permutations(names))
    for n in shared[: draw(st.integers(2, len(shared)))]:
        defs.append([draw(st.sampled_from(KINDS[:7])), n])
    for kind in KINDS[7:]:
        for n in draw(st.lists(st.sampled_from(names), max_size=3, unique=True)):
            if ok(kind, n):
                defs.append([kind, n])
    focus = draw(st.sampled_from(KINDS + [None]))
    if focus:
        # many definitions of one kind
        keep = [d for d in defs if d[0] not in KINDS[:7]] if focus in KINDS[:7] else [d for d in defs if d[0] != focus]
        extra = [[focus, n] for n in shared if ok(focus, n)]
        defs = keep + extra
    defs = [list(d) for d in draw(st.permutations(defs))]
    nest = draw(st.booleans())
    case = {"defs": defs, "nest": nest, "refs": draw(st.permutations(list(range(len(defs)))))}
    if miss:
        kind = draw(st.sampled_from(sorted({d[0] for d in defs})))
        have = {n for k, n in defs if k == kind}
        # one step away from a name of that kind, or a name of another kind
        cand = [n for n in names if n not in have and ok(kind, n)]
        src = draw(st.sampled_from(sorted(have)))
        cand += [c for c in (src + draw(st.sampled_from(STEPS)), src[:-1], src.swapcase(), src + "x") if c and c not in have and ok(kind, c)]
        cand = [c for c in cand if c[0].isalpha()]
        case["miss"] = [kind, draw(st.sampled_from(sorted(set(cand)))), draw(st.integers(0, 3))]
    return case


ALIASES = ["Vlan1", "Vlan10", "Vlan2", "Vlan100", "Vlan1.1", "Vlan21", "Vlan3", "Vlan30", "vlan1", "Vlan11"]


def alias(i):
    return ALIASES[i] if i < len(ALIASES) else f"Vlan{500 + i}"


MARK = {
    "nobj": lambda i: ["grp", None, [["host", f"10.1.{i}.1"]]],
    "ngrp": lambda i: ["host", f"10.2.{i}.1"],
    "sobj": lambda i: {"p": "tcp", "dst": ["port", "eq", str(1000 + i)]},
    "sgrp": lambda i: {"p": "tcp", "dst": ["port", "eq", str(2000 + i)]},
    "tgrp": lambda i: ["port", "eq", str(3000 + i)],
    "igrp": lambda i: ["icmp", str(i), None],
    "pgrp": lambda i: ["proto", str(100 + i)],
    "time": lambda i: ["absolute", f"{2000 + i}-01-01T00:00:00", None],
    "name": lambda i: f"10.3.{i}.0",
    "iface": alias,
}


def define(kind, n, i, prev):
    l = {
        "nobj": [f"object network {n}", f" host 10.1.{i}.1"],
        "ngrp": [f"object-group network {n}", f" network-object host 10.2.{i}.1"],
        "sobj": [f"object service {n}", f" service tcp destination eq {1000 + i}"],
        "sgrp": [f"object-group service {n}", f" service-object tcp destination eq {2000 + i}"],
        "tgrp": [f"object-group service {n} tcp", f" port-object eq {3000 + i}"],
        "igrp": [f"object-group icmp-type {n}", f" icmp-object {i}"],
        "pgrp": [f"object-group protocol {n}", f" protocol-object {100 + i}"],
        "time": [f"time-range {n}", f" absolute start 00:00 01 January {2000 + i}"],
        "name": [f"name 10.3.{i}.0 {n}"],
        "iface": [f"interface {alias(i)}", f" nameif {n}"],
    }[kind]
    if prev and kind in ("ngrp", "sgrp", "tgrp", "igrp", "pgrp"):
        l.append(f" group-object {prev}")
    return l


def refer(kind, n, style, objs):
    head = "access-list A extended permit "
    if kind == "nobj":
        return [head + f"ip object {n} any", head + f"ip any object {n} log", f"object-group network zz{style}", f" network-object object {n}"][style] if style < 2 else None
    return {
        "nobj": None,
        "ngrp": head + (f"ip object-group {n} any" if style % 2 else f"tcp any eq 80 object-group {n} eq 81"),
        "sobj": head + f"object {n} any any",
        "sgrp": head + f"object-group {n} any any",
        "tgrp": head + (f"tcp any object-group {n} any" if style % 2 else f"tcp any any object-group {n} inactive"),
        "igrp": head + f"icmp any any object-group {n}",
        "pgrp": head + f"object-group {n} any any",
        "time": head + (f"ip any any time-range {n}" if style % 2 else f"ip any any log time-range {n} inactive"),
        "name": head + (f"ip host {n} any" if style % 2 else f"ip any {n} 255.255.255.0"),
        "iface": None,
    }[kind]


def text(case):
    out, prev = [], {}
    for i, (k, n) in enumerate(case["defs"]):
        out += define(k, n, i, prev.get(k) if case["nest"] else None)
        prev[k] = n
    # something NAT entries can talk about
    out += ["object network QQ", " host 10.9.9.9"]
    expect = []
    for j, di in enumerate(case["refs"]):
        k, n = case["defs"][di]
        if k == "iface":
            out.append(f"nat ({n},any) source static QQ QQ" if j % 2 else f"nat (any,{n}) source dynamic QQ interface")
            expect.append(["nat", j % 2, n])
            # and by the interface's own name
            out.append(f"nat (any,{alias(di)}) source static QQ QQ" if j % 2 else f"nat ({alias(di)},any) source static QQ QQ")
            expect.append(["nat", not j % 2, n])
            out.append(f"access-group A in interface {n}")
        else:
            if k == "nobj" and j % 3 == 2:
                out.append(f"nat (any,any) source static {n} QQ destination static QQ {n}")
                expect.append(["natobj", di])
                continue
            out.append(refer(k, n, j % 2, None))
            expect.append(["rule", di, j % 2])
    return out, expect


def chain(case, di):
    """A group's own marker, then those of the groups nested in it."""
    k = case["defs"][di][0]
    r = [di]
    if case["nest"]:
        earlier = [j for j in range(di) if case["defs"][j][0] == k]
        if earlier:
            r += chain(case, earlier[-1])
    return r


def deep(x):
    """Content of what a reference resolved to, groups opened."""
    if hasattr(x, "objects"):
        return [y for m in x.objects for y in deep(m)]
    if type(x).__name__.startswith("TimeRange"):
        return [observe.timeitem(x)]
    if type(x).__name__ in ("Service", "ServiceObject"):
        return [observe.service(x)]
    return [observe.host_spec(x)] if not type(x).__name__ in ("Port", "ICMP", "Protocol") else [observe.member(x)]


def target(r, kind, style):
    if kind in ("nobj", "ngrp", "name"):
        if kind == "nobj":
            h = r.dst.host if style else r.src.host
        elif kind == "ngrp":
            h = r.src.host if style else r.dst.host
        else:
            h = r.src.host if style else r.dst.host
        return h
    if kind in ("sobj", "sgrp", "pgrp"):
        return r.protocol
    if kind == "tgrp":
        return r.src.port if style else r.dst.port
    if kind == "igrp":
        return r.icmp
    return r.options["time-range"]


def prefixes(case):
    by = {}
    for k, n in case["defs"]:
        by.setdefault(k, []).append(n)
    return any(a != b and b.startswith(a) for ns in by.values() for a in ns for b in ns)


def check(case, ctx):
    out, expect = text(case)
    t = "\n".join(out) + "\n"
    ctx.label(*{k for k, _ in case["defs"]})
    ctx.note(prefixes(case), t)
    with ctx.sut("parsing a valid configuration"):
        c = parse.asa(t)
    rules = iter(c.rules.rules)
    nats = iter(c.nat[1])
    for e in expect:
        if e[0] == "nat":
            n = next(nats)
            ctx.eq("interface of a NAT entry", (n.real if e[1] else n.mapped).iface.name, e[2])
            continue
        k, name = case["defs"][e[1]]
        if e[0] == "natobj":
            n = next(nats)
            for what, node in (("real source", n.real.src.node), ("real destination", n.real.dst.node)):
                ctx.eq(f"{what} of a NAT entry", [node.name, observe.host_spec(node)[2]], [name, MARK[k](e[1])[2]])
            continue
        r = next(rules)
        x = target(r, k, e[2])
        if k == "name":
            want = ["host", MARK[k](e[1]), name] if e[2] else ["net", MARK[k](e[1]), 24, name]
            ctx.eq(f"address behind name {name}", observe.host(x), want)
            continue
        ctx.eq(f"name of the {k} a rule refers to", x.name, name)
        if k == "nobj":
            got, want = observe.host_spec(x)[2], MARK[k](e[1])[2]
        elif k == "sobj":
            got, want = observe.service(x), MARK[k](e[1])
        elif k == "time":
            got, want = observe.timeitem(x.objects[0])[1], MARK[k](e[1])[1]
        else:
            got, want = deep(x), [MARK[k](d) for d in chain(case, e[1])]
        ctx.eq(f"content of the {k} {name} a rule refers to", got, want)
    ctx.eq("rules left over", len(list(rules)), 0)
    for i, (k, n) in enumerate(case["defs"]):
        if k == "iface":
            with ctx.sut("interfaces"):
                f = c.interfaces[alias(i)]
                got = [f.nameif, [[g.name, g.iface is f] for g in f.access_groups.values()]]
            ctx.eq(f"interface named {n} and its access-groups", got, [n, [["A", True]]])


def check_miss(case, ctx):
    out, _ = text(case)
    k, n, style = case["miss"]
    have = [m for kk, m in case["defs"] if kk == k]
    ctx.label(k)
    near = any(n.startswith(h) or h.startswith(n) or h.lower() == n.lower() for h in have)
    ctx.note(near, "\n".join(out[:6]) + f"\n... and an undefined {k} {n}")
    if k == "iface":
        extra = [f"nat ({n},any) source static QQ QQ" if style % 2 else f"nat (any,{n}) source static QQ QQ"]
    elif k == "nobj":
        extra = [
            [f"access-list A extended permit ip object {n} any"],
            [f"access-list A extended permit ip any object {n}"],
            ["object-group network zz", f" network-object object {n}"],
            [f"nat (any,any) source static {n} QQ"],
        ][style]
    elif style == 2 and k in ("ngrp", "sgrp", "tgrp", "igrp", "pgrp"):
        t = {"ngrp": "network zz", "sgrp": "service zz", "tgrp": "service zz tcp", "igrp": "icmp-type zz", "pgrp": "protocol zz"}[k]
        extra = [f"object-group {t}", f" group-object {n}"]
    elif style == 3 and k == "sobj":
        extra = ["object-group service zz", f" service-object object {n}"]
    elif style == 2 and k == "name":
        extra = ["object-group network zz", f" network-object host {n}"]
    else:
        extra = [refer(k, n, style, None)]
    if k in ("sgrp", "pgrp", "ngrp", "tgrp", "igrp") or (k == "nobj" and style == 3):
        # these stand at places where another kind of group may stand too
        same = {"sgrp": ("pgrp",), "pgrp": ("sgrp",), "ngrp": (), "tgrp": ("sgrp",), "igrp": ("tgrp", "sgrp"), "nobj": ("ngrp",)}[k]
        if any(kk in same and m == n for kk, m in case["defs"]):
            ctx.note(False)
            return
    t = "\n".join(out + extra) + "\n"
    with ctx.sut("parsing without the reference"):
        parse.asa("\n".join(out) + "\n")
    ctx.must_raise(f"a reference to an undefined name: {extra[-1]}", parse.asa, t)


@st.composite
def again(draw):
    """Names given several addresses, one after the other, and used in between."""
    names = [n for n in draw(family(draw(st.integers(2, 5)))) if ok("name", n)] or ["web"]
    return [[draw(st.sampled_from(names)), draw(st.integers(0, 2))] for _ in range(draw(st.integers(3, 14)))]


def check_again(case, ctx):
    now, out, want, times = {}, [], [], {}
    for i, (n, what) in enumerate(case):
        if what == 0 or n not in now:
            now[n] = f"10.3.{i}.0"
            times[n] = times.get(n, 0) + 1
            out.append(f"name {now[n]} {n}")
        else:
            out.append(refer("name", n, what, None))
            want.append(["host", now[n], n] if what % 2 else ["net", now[n], 24, n])
    t = "\n".join(out) + "\n"
    ctx.note(bool(want) and max(times.values()) > 1, t)
    with ctx.sut("parsing a valid configuration"):
        c = parse.asa(t)
    got = [observe.host(r.src.host if w[0] == "host" else r.dst.host) for r, w in zip(c.rules.rules, want)]
    ctx.eq("addresses behind the names, as last given before each use", got, want)
    ctx.eq("number of rules", len(c.rules.rules), len(want))


# --- the other two formats -----------------------------------------------------


@st.composite
def ios_cases(draw):
    names = draw(family(draw(st.integers(2, 6))))
    split = draw(st.integers(0, len(names)))
    names = draw(st.permutations(names))
    have = set(names)
    src = draw(st.sampled_from(names))
    cand = [c for c in (src + draw(st.sampled_from(STEPS)), src[:-1], src.swapcase(), src + "x") if c and c not in have]
    return {"net": names[:split], "svc": names[split:], "miss": draw(st.one_of(st.none(), st.sampled_from(cand)) if cand else st.none()), "where": draw(st.integers(0, 2))}


def check_ios(case, ctx):
    out = []
    for i, n in enumerate(case["net"]):
        out += [f"object-group network {n}", f" host 10.2.{i}.1"]
    for i, n in enumerate(case["svc"]):
        out += [f"object-group service {n}", f" tcp destination eq {2000 + i}"]
    out.append("ip access-list extended X")
    for n in case["net"]:
        out += [f" permit ip object-group {n} any", f" deny tcp any eq 80 object-group {n} eq 90"]
    for n in case["svc"]:
        out += [f" permit object-group {n} any any"]
    out.append(" permit ip any any")
    names = case["net"] + case["svc"]
    near = any(a != b and b.startswith(a) for g in (case["net"], case["svc"]) for a in g for b in g)
    t = "\n".join(out) + "\n"
    ctx.note(near, t)
    with ctx.sut("parsing a valid configuration"):
        c = parse.ios(t)
    rs = iter(c.rules.rules)
    for i, n in enumerate(case["net"]):
        for h in (next(rs).src.host, next(rs).dst.host):
            ctx.eq("group a rule refers to", [h.name, observe.host_spec(h)[2]], [n, [["host", f"10.2.{i}.1"]]])
    for i, n in enumerate(case["svc"]):
        p = next(rs).protocol
        ctx.eq("service group a rule refers to", [p.name, deep(p)], [n, [{"p": "tcp", "dst": ["port", "eq", str(2000 + i)]}]])
    if case["miss"]:
        ctx.label("undefined")
        line = [f" permit ip object-group {case['miss']} any", f" permit ip any object-group {case['miss']}", f" permit object-group {case['miss']} any any"][case["where"]]
        ctx.must_raise(f"a reference to an undefined name: {line}", parse.ios, t + line + "\n")


@st.composite
def pf_cases(draw):
    names = draw(family(draw(st.integers(2, 6))))
    names = [n.replace("-", "_") for n in names]
    names = draw(st.permutations(sorted(set(names))))
    split = draw(st.integers(0, len(names)))
    src = draw(st.sampled_from(names))
    cand = [c for c in (src + draw(st.sampled_from(["1", "0", "_", "z"])), src[:-1], src.swapcase(), src + "x") if c and c not in names]
    return {"net": names[:split], "port": names[split:], "miss": draw(st.one_of(st.none(), st.sampled_from(cand)) if cand else st.none()), "where": draw(st.integers(0, 2))}


def pf_rule(src="<any/>", dst="<any/>", iface="lan"):
    return f"<rule><type>pass</type><interface>{iface}</interface><source>{src}</source><destination>{dst}</destination><descr/></rule>"


def pf_text(case, extra=""):
    al = ""
    for i, n in enumerate(case["net"]):
        al += f"<alias><name>{n}</name><type>host</type><address>10.2.{i}.1</address><descr/></alias>"
    for i, n in enumerate(case["port"]):
        al += f"<alias><name>{n}</name><type>port</type><address>{3000 + i}</address><descr/></alias>"
    rs = "".join(pf_rule(f"<address>{n}</address>", f"<any/>") + pf_rule("<any/>", f"<address>{n}</address>") for n in case["net"])
    rs += "".join(pf_rule(f"<any/><port>{n}</port>", f"<any/><port>{n}</port>") for n in case["port"])
    return f"<pfsense><aliases>{al}</aliases><interfaces><lan><if>em0</if></lan></interfaces><filter>{rs}{extra}</filter></pfsense>"


def check_pf(case, ctx):
    near = any(a != b and b.startswith(a) for g in (case["net"], case["port"]) for a in g for b in g)
    t = pf_text(case)
    ctx.note(near, t)
    with ctx.sut("parsing a valid configuration"):
        c = parse.pf(t)
    rs = iter(c.rules.rules)
    for i, n in enumerate(case["net"]):
        for h in (next(rs).src.host, next(rs).dst.host):
            ctx.eq("alias a rule refers to", [h.name, observe.host_spec(h)[2]], [n, [["host", f"10.2.{i}.1"]]])
    for i, n in enumerate(case["port"]):
        r = next(rs)
        for p in (r.src.port, r.dst.port):
            ctx.eq("port alias a rule refers to", [p.name, [observe.port(x) for x in p.objects]], [n, [["port", "eq", str(3000 + i)]]])
    if case["miss"]:
        ctx.label("undefined")
        m = case["miss"]
        extra = [pf_rule(f"<address>{m}</address>"), pf_rule("<any/>", f"<address>{m}</address>"), pf_rule("<any/>", f"<network>{m}</network>")][case["where"]]
        ctx.must_raise(f"a reference to an undefined name: {extra}", parse.pf, pf_text(case, extra))


# --- many names -----------------------------------------------------------------


@st.composite
def many_cases(draw):
    """Hundreds of definitions of one kind; references to some, the first and the last among them."""
    kind = draw(st.sampled_from(["nobj", "ngrp", "ngrp", "sobj", "sgrp", "tgrp", "igrp", "pgrp", "time", "name", "iface"]))
    n = draw(st.integers(130, 700))
    if kind in ("igrp", "pgrp"):
        # their markers are numbers of one byte
        n = draw(st.integers(130, 155))
    order = draw(st.sampled_from(["up", "down", "mixed"]))
    base = draw(st.sampled_from(["o", "web", "x_y", "Srv", "n-"]))
    refs = sorted({0, n - 1, *draw(st.lists(st.integers(0, n - 1), max_size=6))})
    return {"kind": kind, "n": n, "order": order, "base": base, "refs": refs, "miss": draw(st.booleans())}


def check_many(case, ctx):
    kind, n, base = case["kind"], case["n"], case["base"]
    at = list(range(n))
    if case["order"] == "down":
        at.reverse()
    elif case["order"] == "mixed":
        at.sort(key=lambda i: (i * 7919) % 1009)
    name = [f"{base}{i}" for i in at]
    out = []

    def addr(i, net):
        return f"10.{net + i // 250}.{i % 250}.{0 if net == 30 else 1}"

    for i, m in enumerate(name):
        out += {
            "nobj": lambda: [f"object network {m}", f" host {addr(i, 10)}"],
            "ngrp": lambda: [f"object-group network {m}", f" network-object host {addr(i, 20)}"],
            "sobj": lambda: [f"object service {m}", f" service tcp destination eq {1000 + i}"],
            "sgrp": lambda: [f"object-group service {m}", f" service-object tcp destination eq {2000 + i}"],
            "tgrp": lambda: [f"object-group service {m} tcp", f" port-object eq {3000 + i}"],
            "igrp": lambda: [f"object-group icmp-type {m}", f" icmp-object {i}"],
            "pgrp": lambda: [f"object-group protocol {m}", f" protocol-object {100 + i}"],
            "time": lambda: [f"time-range {m}", f" absolute start 00:00 01 January {2000 + i}"],
            "name": lambda: [f"name {addr(i, 30)} {m}"],
            "iface": lambda: [f"interface If/{i}", f" nameif {m}"],
        }[kind]()
    out += ["object network QQ", " host 10.9.9.9"]
    for j, r in enumerate(case["refs"]):
        out.append(f"nat ({name[r]},any) source static QQ QQ" if kind == "iface" else refer(kind, name[r], j % 2, None))
    t = "\n".join(out) + "\n"
    ctx.label(kind, case["order"], "over 500" if n > 500 else "up to 500")
    ctx.note(True, f"{n} {kind} {name[0]} .. {name[-1]}, references to {[name[r] for r in case['refs']]}")
    with ctx.sut("parsing a valid configuration"):
        c = parse.asa(t)
    rules, nats = iter(c.rules.rules), iter(c.nat[1])
    for j, r in enumerate(case["refs"]):
        m = name[r]
        if kind == "iface":
            ctx.eq("interface of a NAT entry", next(nats).real.iface.name, m)
            ctx.eq(f"interface {m}", c.interfaces[f"If/{r}"].nameif, m)
            continue
        x = target(next(rules), kind, j % 2)
        if kind == "name":
            ctx.eq(f"address behind name {m}", observe.host(x), ["host", addr(r, 30), m] if j % 2 else ["net", addr(r, 30), 24, m])
            continue
        want = {
            "nobj": lambda: [["host", addr(r, 10)]],
            "ngrp": lambda: [["host", addr(r, 20)]],
            "sobj": lambda: {"p": "tcp", "dst": ["port", "eq", str(1000 + r)]},
            "sgrp": lambda: [{"p": "tcp", "dst": ["port", "eq", str(2000 + r)]}],
            "tgrp": lambda: [["port", "eq", str(3000 + r)]],
            "igrp": lambda: [["icmp", str(r), None]],
            "pgrp": lambda: [["proto", str(100 + r)]],
            "time": lambda: f"{2000 + r}-01-01T00:00:00",
        }[kind]()
        got = observe.host_spec(x)[2] if kind == "nobj" else observe.service(x) if kind == "sobj" else observe.timeitem(x.objects[0])[1] if kind == "time" else deep(x)
        ctx.eq(f"content of the {kind} {m} a rule refers to", [x.name, got], [m, want])
    if case["miss"]:
        ctx.label("undefined")
        m = f"{base}{n}"
        extra = f"nat ({m},any) source static QQ QQ" if kind == "iface" else refer(kind, m, 1, None)
        ctx.must_raise(f"a reference to an undefined name: {extra}", parse.asa, t + extra + "\n")


SUBS = [
    Sub("many", many_cases, check_many, 16, 250),
    Sub("asa", cases, check, 500, 12000),
    Sub("asa-undefined", lambda: cases(True), check_miss, 500, 12000),
    Sub("asa-again", again, check_again, 200, 6000),
    Sub("ios", ios_cases, check_ios, 300, 8000),
    Sub("pfsense", pf_cases, check_pf, 1000, 20000),
]
