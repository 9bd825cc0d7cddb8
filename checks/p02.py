"""A filter set selects exactly the rules its id, source and destination match."""
from hypothesis import strategies as st

from acltk.aclObjects import ACLNode, ACLRule, ACLRules, Network, NetworkAny, NetworkAny4, NetworkAny6, NetworkGroup, NetworkHost

from checks import p03
from vlib import asa, big, build, cafgen, ios, parse, pf, world
from vlib.core import Sub

ID = "P02"
RULE = (
    "Hypothesis draws a configuration (ASA, IOS or pfSense) and 3-8 filter sets whose addresses lie on, inside, around "
    "and just outside the intervals the rules use, and whose ids are names, globs derived from names, or glob characters "
    "without slashes; each set's selection is compared with a reference model on integer intervals and wildcard bits. The "
    "configuration is parsed from text, or (built) its rules are made through the constructors with any kind of address "
    "and groups nested up to three deep at both ends; (api) the filter is made of several hand-made rules at once; (ids) random globs meet names that match "
    "them and names one character off. "
    "Non-trivial: some set selects at least one rule and not all rules."
)


def check(case, ctx):
    fmt, cfg = case["fmt"], case["cfg"]
    vs = world.views(fmt, cfg)
    ctx.label(fmt)
    with ctx.sut("parsing a valid configuration"):
        c = world.load(fmt, cfg)
        rules = list(c.rules.rules)
        pos = {id(r): n for n, r in enumerate(rules)}
    ctx.eq("number of rules", len(rules), len(vs))
    proper = False
    used = []
    for leaf in case["leaves"]:
        text = cafgen.p_leaf(leaf)
        want = [n for n, v in enumerate(vs) if cafgen.leaf_match(leaf, *v)]
        if 0 < len(want) < len(vs):
            proper = True
            if leaf["id"]:
                ctx.label("id-" + leaf["id"][0])
            for d, ts in leaf["ip"]:
                ctx.label("ip-" + d)
                ctx.label(*["tok-" + t[0] for t in ts])
                if len(ts) > 1:
                    ctx.label("several addresses")
            if len({d for d, _ in leaf["ip"]}) == 2:
                ctx.label("src+dst")
        with ctx.sut(f"filtering with: {text}"):
            block = parse.caf(text)
            r = c.filter(block)
            got = sorted(pos[id(x)] for x in r)
        ctx.eq(f"rules selected by: {text}", got, want)
        used.append((text, block, want))
    if len(vs) <= 40 and sum(map(len, (t for t, _, _ in used))) % 5 == 0:
        # the same compiled filters on the same configuration loaded once more
        ctx.label("on two configurations")
        with ctx.sut("parsing a valid configuration again"):
            c = world.load(fmt, cfg)
            pos = {id(r): n for n, r in enumerate(c.rules.rules)}
        for text, block, want in used:
            with ctx.sut(f"filtering a second configuration with the same: {text}"):
                got = sorted(pos.get(id(x), -1) for x in c.filter(block))
            ctx.eq(f"rules of a second configuration selected by: {text}", got, want)
    ctx.note(proper, world.text(fmt, cfg)[:1500] + "\n--- " + " | ".join(cafgen.p_leaf(l) for l in case["leaves"]))


def target(t):
    if t[0] == "host":
        return NetworkHost(t[1])
    if t[0] == "net":
        return Network(t[1], t[2])
    return {"any": NetworkAny, "any4": NetworkAny4, "any6": NetworkAny6}[t[0]]()


def node(leaf, d):
    ts = [target(t) for dd, toks in leaf["ip"] if dd == d for t in toks if t[0] not in ("ANY", "ANY4", "ANY6")]
    if not ts:
        return ACLNode(NetworkAny())
    if len(ts) == 1:
        return ACLNode(ts[0])
    g = NetworkGroup("", "")
    for t in ts:
        g.add(t)
    return ACLNode(g)


def check_api(case, ctx):
    """Rules built by hand, several at once: selected are those any of them matches."""
    fmt, cfg = case["fmt"], case["cfg"]
    vs = world.views(fmt, cfg)
    ctx.label(fmt)
    leafs = [{"id": l["id"], "ip": [[d, [t for t in ts if t[0] not in ("ANY", "ANY4", "ANY6")]] for d, ts in l["ip"]]} for l in case["leaves"]]
    want = [n for n, v in enumerate(vs) if any(cafgen.leaf_match(l, *v) for l in leafs)]
    ctx.note(0 < len(want) < len(vs), world.text(fmt, cfg)[:1500])
    with ctx.sut("filtering with hand-made rules"):
        c = world.load(fmt, cfg)
        pos = {id(r): n for n, r in enumerate(c.rules.rules)}
        targets = [ACLRule(id=None if l["id"] is None else cafgen.p_id(l["id"]), src=node(l, "src"), dst=node(l, "dst")) for l in leafs]
        got = sorted(pos[id(x)] for x in c.rules.filter(targets))
    ctx.eq("rules selected by hand-made rules", got, want)


IDS = ["A", "a", "A1", "B.b", "in_x", "IN_X", "x-1", "long" * 60, "long" * 60 + "1"]


@st.composite
def built(draw, large=False):
    """Rules made by hand, any kind of address at both ends, groups within groups."""
    ivs, rules = [], []
    for _ in range(draw(st.integers(1, 8))):
        r = [draw(st.sampled_from(IDS))]
        for _ in "sd":
            s = draw(p03.spec(ivs if draw(st.booleans()) else [], draw(st.integers(0, 3))))
            if p03.hollow(s):
                s = ["any"]
            r.append(s)
            cafgen.bounds(s, ivs)
        rules.append(r)
    leafs = [draw(cafgen.leaf(sorted({r[0] for r in rules}), ivs)) for _ in range(draw(st.integers(1, 6)))]
    case = {"rules": rules, "leaves": leafs, "cut": draw(st.integers(0, 8))}
    if large:
        case["times"], case["cut"] = draw(st.integers(200, 3000)) // len(rules) + 1, draw(st.integers(0, 3000))
    return case


def check_built(case, ctx):
    rules = case["rules"] * case.get("times", 1)
    with ctx.sut("making rules"):
        objs = [ACLRule(id=i, mode="permit", src=ACLNode(build.obj(s)), dst=ACLNode(build.obj(d))) for i, s, d in rules]
        some, acl = ACLRules(), ACLRules()
        for o in objs:
            acl.add(o)
        pos = {id(o): n for n, o in enumerate(objs)}
    proper, blocks = False, []
    ctx.label(*{k for r in rules for s in r[1:] for k in p03.kinds(s)})
    for leaf in case["leaves"]:
        text = cafgen.p_leaf(leaf)
        want = [n for n, v in enumerate(rules) if cafgen.leaf_match(leaf, *v)]
        if 0 < len(want) < len(rules):
            proper = True
            ctx.label(*["tok-" + t[0] for d, ts in leaf["ip"] for t in ts])
        with ctx.sut(f"filtering with: {text}"):
            got = sorted(pos[id(x)] for x in parse.caf(text).run(acl))
        ctx.eq(f"rules selected by: {text}", got, want)
        blocks.append((text, parse.caf(text), leaf))
    # the same rules and filters once more while the rule set grows
    for upto in sorted({case["cut"] % (len(rules) + 1), len(rules)}):
        with ctx.sut("adding rules"):
            for o in objs[len(some.rules) : upto]:
                some.add(o)
        for text, block, leaf in blocks:
            want = [n for n, v in enumerate(rules[:upto]) if cafgen.leaf_match(leaf, *v)]
            with ctx.sut(f"filtering {upto} rules with: {text}"):
                got = sorted(pos[id(x)] for x in block.run(some))
            ctx.eq(f"rules selected from the first {upto} by: {text}", got, want)
    ctx.note(proper, case)


@st.composite
def named(draw):
    """Globs of every shape against the names they match and near misses of those."""
    ids, leafs = [], []
    for _ in range(draw(st.integers(1, 3))):
        els = draw(st.lists(cafgen.GLOB_ELEMENTS, min_size=1, max_size=6))
        leafs.append({"id": ["pat", els], "ip": []})
        ids += draw(cafgen.near_ids(els))
    leafs += [{"id": ["lit", i], "ip": []} for i in ids if all(c.isascii() and (c.isalnum() or c in "_-.") for c in i)][:3]
    return {"rules": [[i, ["any"], ["any"]] for i in ids], "leaves": leafs, "cut": draw(st.integers(0, 8))}


@st.composite
def large(draw):
    fmt = draw(st.sampled_from(["asa", "ios", "pf"]))
    if fmt == "asa":
        base = asa.config(kinds=("extended", "standard"), max_rules=6, max_defs=4, min_rules=1, ifaces=False, times=False, services=False, remarks=False)
    elif fmt == "ios":
        base = ios.config(acls=(1, 2), max_defs=3, n_ifaces=(0, 0), routes=0)
    else:
        base = pf.config(seps=False)
    cfg = draw(big.grown(fmt, base))
    vs, ivs = world.views(fmt, cfg), []
    for _, s, d in vs[:8]:
        cafgen.bounds(s, ivs)
        cafgen.bounds(d, ivs)
    ivs = ivs[:20] + ivs[-60:]
    leafs = [draw(cafgen.leaf(sorted({v[0] for v in vs}) or ["A"], ivs)) for _ in range(draw(st.integers(3, 6)))]
    return {"fmt": fmt, "cfg": cfg, "leaves": leafs}


SUBS = [
    Sub("sets", lambda: world.filtered(), check, 700, 24000),
    Sub("api", lambda: world.filtered(n=(1, 3), leaf_kw={"min_ip": 1}), check_api, 300, 6000),
    Sub("built", built, check_built, 700, 24000),
    Sub("big", large, check, 24, 900),
    Sub("many", lambda: built(True), check_built, 24, 900),
    Sub("ids", named, check_built, 500, 20000),
]
