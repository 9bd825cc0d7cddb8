"""Filter expressions are set algebra over their sets."""
from hypothesis import strategies as st

from vlib import cafgen, gen, parse
from vlib.core import Sub

ID = "P01"
RULE = (
    "Hypothesis draws expressions of union/intersect/except with arbitrary nesting and parentheses over sets that pick "
    "arbitrary subsets of the rules of one fixed ASA configuration (8 access lists, 24 rules, 6 NAT entries); every set "
    "is run alone through the tool and the results are combined by a reference evaluator, then compared with running the "
    "whole expression; some have dozens of operators in a row, or many parentheses within each other. Non-trivial: at least two operators, and some set neither empty nor everything."
)

IDS = "ABCDEFGH"


def config_text():
    l = ["hostname fw", "interface Vlan1", " nameif inside", "interface Vlan2", " nameif outside"]
    for i in range(6):
        l += [f"object network o{i}", f" host 10.1.{i}.1"]
    for n, i in enumerate(IDS):
        l.append(f"access-list {i} extended permit ip host 10.1.{n % 4}.1 any")
        l.append(f"access-list {i} extended deny tcp any host 10.1.{n % 3}.1 eq 80")
        l.append(f"access-list {i} extended permit udp 10.1.0.0 255.255.{(252, 254, 255, 248)[n % 4]}.0 any4")
    for i in range(6):
        l.append(f"nat (inside,outside) source dynamic o{i} o{(i + 1) % 6}")
    return "\n".join(l) + "\n"


CACHE = {}


def config():
    if "c" not in CACHE:
        CACHE["c"] = parse.asa(config_text())
    return CACHE["c"]


@st.composite
def leafs(draw):
    k = draw(st.integers(0, 5))
    if k <= 3:
        sub = draw(st.lists(st.sampled_from(IDS), min_size=1, max_size=7, unique=True))
        return {"id": ["pat", [["[", draw(st.booleans()), "".join(sorted(sub))]]], "ip": []}
    if k == 4:
        return {"id": draw(st.one_of(st.none(), st.sampled_from(IDS).map(lambda c: ["lit", c]))), "ip": [[draw(st.sampled_from(["src", "dst"])), [["host", f"10.1.{draw(st.integers(0, 5))}.1"]]]]}
    return {"id": None, "ip": [["src", [draw(st.sampled_from([["ANY"], ["any4"], ["net", "10.1.0.0", 23]]))]]]}


def index(c, result):
    """Result of a filter run as positions in the configuration."""
    pos = {id(r): n for n, r in enumerate(c.rules.rules)}
    for k in sorted(c.nat):
        for r in c.nat[k]:
            pos[id(r)] = len(pos)
    return frozenset(pos[id(r)] for r in result)


def check(case, ctx):
    c = config()
    text = cafgen.p_expr(case)
    seen = []
    nrules = len(c.rules.rules)

    def leafval(leaf):
        with ctx.sut("running one set of the expression"):
            r = index(c, c.filter(parse.caf(cafgen.p_leaf(leaf))))
        seen.append(r)
        return r

    want = cafgen.evaluate(case, leafval)
    ops = cafgen.ops(case)
    ctx.label(*ops)
    ctx.label("ops-%d" % min(len(ops), 6))
    if any(a != b for e in walk(case) for a, b in zip(e[1][1::2], e[1][3::2])):
        ctx.label("mixed-precedence")
    ctx.note(len(ops) >= 2 and any(0 < len(s) < nrules for s in seen), text)
    with ctx.sut("running the expression"):
        block = parse.caf(text)
        got = index(c, c.filter(block))
        only = index(c, block.run(c.rules))
    ctx.eq(f"selected entries of: {text}", sorted(got), sorted(want))
    ctx.eq(f"selected rules of: {text}", sorted(only), sorted(i for i in want if i < nrules))


def walk(e):
    if e[0] == "ops":
        yield e
        for x in e[1][::2]:
            yield from walk(x)
    elif e[0] == "paren":
        yield from walk(e[1])


SUBS = [Sub("algebra", lambda: cafgen.expr(leafs(), 3), check, 2500, 60000), Sub("long", lambda: cafgen.long_expr(leafs()), check, 150, 5000)]
