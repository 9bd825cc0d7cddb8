"""Wildcard masks match bit by bit."""
from acltk.aclObjects import NetworkHost, NetworkWildcard, Network
from hypothesis import strategies as st

from vlib import build, cafgen, gen, ios, parse
from vlib import netmodel as nm
from vlib.core import Sub

ID = "P09"
RULE = (
    "Hypothesis draws IOS access-list entries whose source and destination are address/wildcard pairs (host-mask-like, "
    "netmask-like, scattered bits, all ones, zero) and probes them with hosts and networks made by flipping single bits "
    "inside and outside the wildcard, other wildcards and IPv6 addresses; the oracle is (x xor a) and not w = 0. "
    "Non-trivial: the wildcard is neither 0 nor all ones."
)


@st.composite
def probe(draw, a, w):
    """A host or network close to the pair."""
    free = [b for b in range(32) if w >> b & 1]
    fixed = [b for b in range(32) if not w >> b & 1]
    x = a
    for b in draw(st.lists(st.sampled_from(free), max_size=5)) if free else []:
        x ^= 1 << b
    if fixed and draw(st.booleans()):
        x ^= 1 << draw(st.sampled_from(fixed))
    if draw(st.integers(0, 2)):
        return ["host", nm.fmt(4, x)]
    return ["net", nm.fmt(4, x), draw(st.sampled_from(sorted({0, 32, 31, *(31 - b for b in free[-2:]), *(32 - b for b in free[:2]), *(31 - b for b in fixed[:2])})))]


@st.composite
def pair(draw):
    return [draw(gen.v4_int()) ^ draw(st.sampled_from([0, 0, 1, 255, 1 << 31])), draw(gen.wildcard_int())]


@st.composite
def filters(draw):
    entries = [[draw(pair()), draw(pair())] for _ in range(draw(st.integers(1, 4)))]
    leafs = []
    for _ in range(draw(st.integers(3, 8))):
        e = draw(st.sampled_from(entries))
        ip = []
        for d, p in zip(("src", "dst"), e):
            if draw(st.integers(0, 3)):
                ip.append([d, draw(st.lists(st.one_of(probe(*p), probe(*p), gen.host()), min_size=1, max_size=2))])
        if ip:
            leafs.append({"id": None, "ip": ip})
    return {"entries": entries, "numbered": draw(st.booleans()), "leaves": leafs}


def check_filter(case, ctx):
    def w(p):
        return f"{nm.fmt(4, p[0])} {nm.fmt(4, p[1])}"

    if case["numbered"]:
        text = "".join(f"access-list 101 permit ip {w(s)} {w(d)}\n" for s, d in case["entries"])
    else:
        text = "ip access-list extended A\n" + "".join(f" permit ip {w(s)} {w(d)}\n" for s, d in case["entries"])
    with ctx.sut("parsing a valid configuration"):
        c = parse.ios(text)
        pos = {id(r): n for n, r in enumerate(c.rules.rules)}
    ctx.eq("number of rules", len(pos), len(case["entries"]))
    ctx.note(any(0 < p[1] < nm.MAX[4] for e in case["entries"] for p in e), text)
    for leaf in case["leaves"]:
        t = cafgen.p_leaf(leaf)
        want = [n for n, (s, d) in enumerate(case["entries"]) if cafgen.leaf_match(leaf, "A", ["wild", nm.fmt(4, s[0]), nm.fmt(4, s[1])], ["wild", nm.fmt(4, d[0]), nm.fmt(4, d[1])])]
        ctx.label("hit" if want else "miss")
        with ctx.sut(f"filtering with {t}"):
            got = sorted(pos[id(r)] for r in c.filter(parse.caf(t)))
        ctx.eq(f"rules selected by {t} in\n{text}", got, want)


@st.composite
def direct(draw):
    p = draw(pair())
    other = draw(st.one_of(probe(*p), probe(*p), pair().map(lambda q: ["wild", nm.fmt(4, q[0]), nm.fmt(4, q[1])]), gen.host(), gen.net()))
    if draw(st.integers(0, 3)) == 0:
        flip = 1 << draw(st.integers(0, 31))
        other = ["wild", nm.fmt(4, p[0] ^ flip), draw(gen.wildcard)]
    return [p, other]


def check_direct(case, ctx):
    (a, w), other = case
    me = ["wild", nm.fmt(4, a), nm.fmt(4, w)]
    want = nm.overlap(nm.atoms(me), nm.atoms(other))
    ctx.label(other[0], "hit" if want else "miss")
    ctx.note(0 < w < nm.MAX[4])
    with ctx.sut("comparing"):
        x, y = build.obj(me), build.obj(other)
        got = [bool(x & y), bool(y & x)]
    ctx.eq(f"{me} against {other}, both orders", got, [want, want])


@st.composite
def small(draw):
    bits = draw(st.lists(st.integers(0, 31), max_size=7, unique=True))
    w = sum(1 << b for b in bits)
    if draw(st.booleans()):
        w |= (1 << draw(st.integers(0, 8))) - 1
    return [draw(gen.v4_int()), w]


def check_enum(case, ctx):
    a, w = case
    ctx.note(w & (w + 1) != 0)
    with ctx.sut("listing a wildcard's addresses"):
        got = NetworkWildcard(nm.fmt(4, a), nm.fmt(4, w))._addresses()
        ats = []
        for g in got:
            lo = int(g) if not hasattr(g, "network_address") else int(g.network_address)
            hi = int(g) if not hasattr(g, "broadcast_address") else int(g.broadcast_address)
            ats.append((4, lo, hi))
    base = a & ~w & nm.MAX[4]
    want, sub = [], w
    while True:
        want.append((4, base | sub, base | sub))
        if sub == 0:
            break
        sub = (sub - 1) & w
    ctx.eq(f"addresses of {nm.fmt(4, a)} {nm.fmt(4, w)}", nm.normal(ats)[4], nm.normal(want)[4])


SUBS = [
    Sub("filter", filters, check_filter, 1200, 40000),
    Sub("direct", direct, check_direct, 16000, 500000),
    Sub("enumerate", small, check_enum, 1200, 40000),
]
