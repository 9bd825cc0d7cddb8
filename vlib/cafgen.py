"""CAF filters: sets (leaves), their reference meaning, expressions, printing.

A leaf: {"id": null | ["lit", text] | ["pat", [element, ...]],
         "ip": [[direction, [token, ...]], ...]}
A pattern element: ["c", char] | ["?"] | ["*"] | ["[", negated, chars] | ["r", negated, first, last]
An address token: ["any"] ["any4"] ["any6"] ["ANY"] ["ANY4"] ["ANY6"]
                  ["host", a] ["net", a, plen]  (address texts may be any spelling)
An expression: ["leaf", leaf] | ["paren", expr] | ["ops", [expr, op, expr, ...]]
"""
from hypothesis import strategies as st

from vlib import gen
from vlib import netmodel as nm

KEYWORDS = [["any"], ["any4"], ["any6"], ["ANY"], ["ANY4"], ["ANY6"]]


# --- meaning -------------------------------------------------------------------


def glob(els, s):
    if not els:
        return s == ""
    e, rest = els[0], els[1:]
    if e[0] == "*":
        return any(glob(rest, s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    if e[0] == "c":
        return s[0] == e[1] and glob(rest, s[1:])
    if e[0] == "?":
        return glob(rest, s[1:])
    hit = e[2] <= s[0] <= e[3] if e[0] == "r" else s[0] in e[2]
    return hit != e[1] and glob(rest, s[1:])


def literal_any(kind, spec):
    """Is this literally that any, or a group with one in it?"""
    if spec[0] == kind:
        return True
    return spec[0] == "grp" and any(literal_any(kind, m) for m in spec[2])


def token_match(t, spec):
    if t[0] == "any":
        return True
    if t[0] in ("ANY", "ANY4", "ANY6"):
        return literal_any(t[0].lower(), spec)
    return nm.overlap(nm.atoms(t), nm.atoms(spec))


def side_match(leaf, direction, spec):
    toks = [t for d, ts in leaf["ip"] if d == direction for t in ts]
    return not toks or any(token_match(t, spec) for t in toks)


def id_match(leaf, rid):
    if leaf["id"] is None:
        return True
    k, v = leaf["id"]
    return rid == v if k == "lit" else glob(v, rid)


def leaf_match(leaf, rid, src, dst):
    return id_match(leaf, rid) and side_match(leaf, "src", src) and side_match(leaf, "dst", dst)


def evaluate(expr, leafval):
    """leafval: leaf -> set. intersect binds tighter; union/except left to right."""
    if expr[0] == "leaf":
        return leafval(expr[1])
    if expr[0] == "paren":
        return evaluate(expr[1], leafval)
    seq = expr[1]
    terms = [evaluate(seq[0], leafval)]
    ops = []
    for op, e in zip(seq[1::2], seq[2::2]):
        v = evaluate(e, leafval)
        if op == "intersect":
            terms[-1] = terms[-1] & v
        else:
            ops.append(op)
            terms.append(v)
    r = terms[0]
    for op, v in zip(ops, terms[1:]):
        r = r | v if op == "union" else r - v
    return r


# --- printing ------------------------------------------------------------------


def p_id(i):
    if i[0] == "lit":
        return i[1]
    s = ""
    for e in i[1]:
        s += e[1] if e[0] == "c" else e[0] if e[0] in "?*" else "[" + ("!" if e[1] else "") + (f"{e[2]}-{e[3]}" if e[0] == "r" else e[2]) + "]"
    return f"/{s}/"


def p_token(t):
    if t[0] == "host":
        return t[1]
    if t[0] == "net":
        return f"{t[1]}/{t[2]}"
    return t[0]


def p_leaf(leaf, sp=" "):
    parts = []
    if leaf["id"] is not None:
        parts.append("id" + sp + p_id(leaf["id"]))
    for d, ts in leaf["ip"]:
        parts.append("ip" + sp + d + sp + sp.join(p_token(t) for t in ts))
    return sp.join(parts)


def p_expr(e, sp=" "):
    if e[0] == "leaf":
        return p_leaf(e[1], sp)
    if e[0] == "paren":
        return "(" + sp + p_expr(e[1], sp) + sp + ")"
    return sp.join(x if isinstance(x, str) else p_expr(x, sp) for x in e[1])


def leaves(e):
    if e[0] == "leaf":
        return [e[1]]
    if e[0] == "paren":
        return leaves(e[1])
    return [l for x in e[1][::2] for l in leaves(x)]


def ops(e):
    if e[0] == "leaf":
        return []
    if e[0] == "paren":
        return ops(e[1])
    return e[1][1::2] + [o for x in e[1][::2] for o in ops(x)]


# --- generation ----------------------------------------------------------------


def bounds(spec, out):
    for a in nm.atoms(spec):
        if a[0] == "all":
            continue
        if a[0] == "w":
            out.append((4, a[1] & ~a[2] & nm.MAX[4], (a[1] | a[2]) & nm.MAX[4]))
        else:
            out.append(a)


@st.composite
def near(draw, ivs):
    """A token of near_token, an IPv6 address in any of its written forms."""
    return draw(gen.written(near_token(ivs)))


@st.composite
def near_token(draw, ivs):
    """A token inside, around, or just outside one of the intervals."""
    if not ivs or draw(st.integers(0, 5)) == 0:
        return draw(st.one_of(gen.host(), gen.net(), st.sampled_from(KEYWORDS)))
    v, lo, hi = draw(st.sampled_from(ivs))
    k = draw(st.integers(0, 10))
    if k == 10:
        # one bit of it different, and perhaps all in the same half
        b = draw(st.integers(0, 31 if v == 4 else 127))
        x = draw(st.sampled_from([lo, hi])) ^ (1 << b)
        if draw(st.booleans()):
            half = nm.BITS[v] // 2
            x ^= draw(st.integers(0, (1 << half) - 1)) << (half if b >= half else 0)
        return ["host", nm.fmt(v, x)]
    if k <= 5:
        x = [lo, hi, max(lo - 1, 0), min(hi + 1, nm.MAX[v]), (lo + hi) // 2, min(lo + 1, nm.MAX[v])][k]
        if k == 4 and draw(st.booleans()):
            for b in draw(st.lists(st.integers(0, 31 if v == 4 else 127), min_size=1, max_size=2)):
                x ^= 1 << b
        return ["host", nm.fmt(v, x)]
    bits = nm.BITS[v]
    own = bits - (hi - lo).bit_length()
    p = min(bits, max(0, own + draw(st.integers(-2, 2))))
    x = [lo, hi, max(lo - 1, 0), min(hi + 1, nm.MAX[v])][k - 6]
    return ["net", nm.fmt(v, x), p]


@st.composite
def pattern(draw, ids):
    """A glob made from an id, or near one."""
    s = draw(st.sampled_from(ids))
    els = []
    i = 0
    while i < len(s):
        k = draw(st.integers(0, 11))
        c = s[i]
        if k == 0:
            els.append(["?"])
        elif k == 1:
            els.append(["*"])
            i += draw(st.integers(0, 3))
            continue
        elif k == 2 and c.isascii() and c.isalnum():
            els.append(["[", draw(st.booleans()), c + draw(st.sampled_from(["", "x", "1", "A"]))])
        elif k == 3 and c.isascii() and c.isalpha():
            els.append(["c", c.swapcase()])
        elif c.isascii() and (c.isalnum() or c in "_-."):
            els.append(["c", c])
        else:
            els.append(["?"])
        i += 1
    if draw(st.integers(0, 2)) == 0:
        els.append(["*"])
    if draw(st.integers(0, 5)) == 0:
        els = els[:-1]
    return ["pat", els or [["*"]]]


GLOB_ELEMENTS = st.one_of(
    st.sampled_from("aAbB1_.").map(lambda c: ["c", c]),
    st.sampled_from("ab.-").map(lambda c: ["c", c]),
    st.just(["?"]),
    st.just(["*"]),
    st.builds(lambda n, cs: ["[", n, "".join(cs)], st.booleans(), st.lists(st.sampled_from("aAb1_."), min_size=1, max_size=3, unique=True)),
    st.builds(lambda n, r: ["r", n, r[0], r[1]], st.booleans(), st.sampled_from(["ab", "AB", "az", "09", "AZ", "bz", "bx"])),
)


@st.composite
def near_ids(draw, els):
    """A text the glob matches, and texts that differ from it by one character."""
    s = ""
    for e in els:
        if e[0] == "c":
            s += e[1]
        elif e[0] == "?":
            s += draw(st.sampled_from("ab1.+"))
        elif e[0] == "*":
            s += draw(st.sampled_from(["", "", "a", "b.", "A1", "--"]))
        else:
            s += draw(st.sampled_from([x for x in "aAbB1_.z0" if (e[2] <= x <= e[3] if e[0] == "r" else x in e[2]) != e[1]] or ["a"]))
    out = [s]
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, max(0, len(s) - 1)))
        c = draw(st.sampled_from(["", "a", "A", "b", ".", "x", "-", "1", "ab", "+", "\\", "*", "?", "/", "]"]))
        k = draw(st.integers(0, 3))
        if k == 0:
            out.append(s[:i] + s[i : i + 1].swapcase() + s[i + 1 :])
        elif k == 1:
            out.append(s[:i] + c + s[i:])
        elif k == 2:
            out.append(s + c)
        else:
            out.append(s[:i] + c + s[i + 1 :])
    # a name between slashes would itself be taken for a glob
    return sorted({o for o in out if o and not (o[0] == "/" == o[-1])}) or ["x"]


@st.composite
def leaf(draw, ids, ivs, ids_ok=True, min_ip=0):
    r = {"id": None, "ip": []}
    lits = [i for i in ids if i and all(c.isascii() and (c.isalnum() or c in "_-.") for c in i)]
    if ids_ok and draw(st.integers(0, 2)) == 0:
        k = draw(st.integers(0, 4))
        if k <= 1 and lits:
            r["id"] = ["lit", draw(st.sampled_from(lits))]
        elif k == 2:
            # not between slashes, so not a pattern
            r["id"] = ["lit", draw(st.sampled_from(["*", "A*", "inside_?n", "?", "no-such", "a", "IN", "/A", "A/", "[A]"]))]
        elif ids:
            r["id"] = draw(pattern(ids))
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3])) if r["id"] is None or min_ip else draw(st.sampled_from([0, 1, 2]))
    for _ in range(n):
        ts = draw(st.lists(near(ivs) if draw(st.integers(0, 3)) else st.sampled_from(KEYWORDS), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3]))))
        r["ip"].append([draw(st.sampled_from(["src", "dst"])), ts])
    return r


@st.composite
def expr(draw, leafs, depth=3):
    """Any shape of operators and parentheses over the given leaf strategy."""
    if depth <= 0 or draw(st.integers(0, 4)) == 0:
        e = ["leaf", draw(leafs)]
        return ["paren", e] if draw(st.integers(0, 3)) == 0 else e
    k = draw(st.integers(0, 3))
    if k == 0:
        return ["paren", draw(expr(leafs, depth - 1))]
    seq = [draw(operand(leafs, depth))]
    for _ in range(draw(st.integers(1, 4))):
        seq.append(draw(st.sampled_from(["union", "intersect", "except"])))
        seq.append(draw(operand(leafs, depth)))
    return ["ops", seq]


@st.composite
def operand(draw, leafs, depth):
    if depth > 1 and draw(st.integers(0, 2)) == 0:
        return ["paren", draw(expr(leafs, depth - 1))]
    e = ["leaf", draw(leafs)]
    return ["paren", e] if draw(st.integers(0, 5)) == 0 else e


@st.composite
def long_expr(draw, leafs, n=(8, 90), nest=16):
    """Many operators in a row over a few sets, or parentheses within parentheses."""
    pool = draw(st.lists(leafs, min_size=2, max_size=6))
    ops = st.sampled_from(draw(st.sampled_from([["union", "intersect", "except"], ["union", "except"], ["union", "union", "union", "except"], ["intersect", "union"]])))

    def row(k):
        seq = [["leaf", draw(st.sampled_from(pool))]]
        for _ in range(k):
            seq += [draw(ops), ["leaf", draw(st.sampled_from(pool))]]
        return seq

    e = ["ops", row(draw(st.integers(*n)))]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, nest]))):
        seq = row(draw(st.integers(1, 4)))
        seq[2 * draw(st.integers(0, len(seq) // 2))] = ["paren", e]
        e = ["ops", seq]
    return e
