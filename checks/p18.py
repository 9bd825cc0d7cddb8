"""A filter selects exactly the NAT entries whose real or mapped addresses match it."""
from hypothesis import strategies as st

from vlib import asa, big, cafgen, parse
from vlib.core import Sub

ID = "P18"
RULE = (
    "Hypothesis draws an ASA configuration with twice NAT and object NAT entries and 3-8 filter sets near their "
    "addresses (or near those of the rules); the NAT entries each set selects are compared with a reference model "
    "(real pair or mapped pair matches; an absent part does not constrain). Non-trivial: some set selects at least one "
    "but not all NAT entries."
)


def node(n, mi, sp):
    if n is None:
        return None
    if n[0] == "pool":
        n = n[1]
    if n[0] == "interface":
        return ["iface", mi]
    if n[0] in ("obj", "grp"):
        return sp[(n[0], n[1])]
    return list(n)


def views(cfg):
    """[section, real src, real dst, mapped src, mapped dst] in configuration order of sections."""
    sp = asa.specs(cfg)
    secs = {1: [], 2: [], 3: []}
    for it in cfg["items"]:
        if it["k"] == "nat":
            d = it.get("dst")
            mi = it["if"][1]
            v = [node(it["real"], mi, sp), node(d[1], mi, sp) if d else None, node(it["mapped"], mi, sp), node(d[0], mi, sp) if d else None]
            secs[3 if it["pos"] else 1].append(v)
        elif it["k"] == "onat":
            secs[2].append([sp[("obj", it["n"])], ["any"], node(it["mapped"], it["if"][1], sp), ["any"]])
    return secs[1] + secs[2] + secs[3]


def pair(leaf, src, dst):
    return all(spec is None or cafgen.side_match(leaf, d, spec) for d, spec in (("src", src), ("dst", dst)))


def match(leaf, v):
    return pair(leaf, v[0], v[1]) or pair(leaf, v[2], v[3])


@st.composite
def cases(draw, large=False):
    base = asa.config(nat=5, max_rules=2, max_defs=8, services=False, times=False, kinds=("extended",), remarks=False)
    cfg = draw(big.more_nat(base) if large else base)
    ivs = []
    for v in views(cfg)[-40:]:
        for s in v:
            if s is not None:
                cafgen.bounds(s, ivs)
    leafs = [draw(cafgen.leaf(["A"], ivs, ids_ok=False)) for _ in range(draw(st.integers(3, 8)))]
    return {"cfg": cfg, "leaves": leafs}


def check(case, ctx):
    vs = views(case["cfg"])
    with ctx.sut("parsing a valid configuration"):
        c = parse.asa(asa.text(case["cfg"]))
        flat = [n for k in (1, 2, 3) for n in c.nat[k]]
        pos = {id(n): i for i, n in enumerate(flat)}
    ctx.eq("number of NAT entries", len(flat), len(vs))
    proper = False
    used = []
    for it in case["cfg"]["items"]:
        if it["k"] in ("nat", "onat"):
            ctx.label(it["k"], "mapped-" + it["mapped"][0])
            if it.get("dst"):
                ctx.label("destination")
    for leaf in case["leaves"]:
        text = cafgen.p_leaf(leaf)
        want = [i for i, v in enumerate(vs) if match(leaf, v)]
        if 0 < len(want) < len(vs):
            proper = True
            ctx.label("proper subset")
        with ctx.sut(f"filtering with: {text}"):
            block = parse.caf(text)
            got = sorted(pos[id(x)] for x in c.filter(block) if id(x) in pos)
        ctx.eq(f"NAT entries selected by: {text}", got, want)
        used.append((text, block, want))
    if len(vs) <= 40 and sum(map(len, (t for t, _, _ in used))) % 5 == 0:
        # the same compiled filters on the same configuration loaded once more
        ctx.label("on two configurations")
        with ctx.sut("parsing a valid configuration again"):
            c = parse.asa(asa.text(case["cfg"]))
            pos = {id(n): i for i, n in enumerate([n for k in (1, 2, 3) for n in c.nat[k]])}
        for text, block, want in used:
            with ctx.sut(f"filtering a second configuration with the same: {text}"):
                got = sorted(pos[id(x)] for x in c.filter(block) if id(x) in pos)
            ctx.eq(f"NAT entries of a second configuration selected by: {text}", got, want)
    ctx.note(proper, asa.text(case["cfg"])[:1500] + "\n--- " + " | ".join(cafgen.p_leaf(l) for l in case["leaves"]))


SUBS = [Sub("nat", cases, check, 900, 20000), Sub("big", lambda: cases(True), check, 40, 1200)]
