"""A malformed filter program is refused."""
from hypothesis import strategies as st

from checks import p01, p20
from vlib import cafgen, gen
from vlib.core import Sub

ID = "P21"
RULE = (
    "Hypothesis draws a valid filter program as a list of words and applies one fault of one class at a random place: "
    "an unknown word, an unknown operator, a parenthesis too few or too many, a missing word where the rest cannot be "
    "read another way, an unterminated or stray comment, an id given twice or late or with unknown characters, words run "
    "together, an octet, group, prefix length or address that is not one. The fault-free program must load, the faulty "
    "one must raise. Non-trivial: always (every case is a distinct faulty program)."
)
ASSUMPTIONS = ["A set without criteria is valid and selects everything, as the grammar has it, so a missing operand is not a fault."]

BAD_WORDS = ["foo", "and", "or", "not", "union2", "Union", "UNION", "ID", "IP", "SRC", "Any", "srcs", "host", "from", "minus", "&", "|", "-", ",", ";", "10", "10.0", "#", "=", "\"", "'", "{", "}", "10.0.0", "*", "//", "permit"]
BAD_OPS = ["and", "or", "minus", "Union", "INTERSECT", "excepts", "&", "|", "-", "+", ",", "unionx"]
BAD_V4 = ["256.1.1.1", "1.256.1.1", "1.1.1.256", "10.0.0", "10.0.0.", ".10.0.0.1", "10..0.1", "10.0.0.1.", "10.0.0.1.5", "10.0.0.300", "010.0.0.1", "10.0.0.01", "10,0,0,1", "10.0.0.1x", "x10.0.0.1", "10.0.0.-1", "10.0.0.*", "10.0.0.a", "0x0a.0.0.1"]
BAD_V6 = ["1::2::3", ":::", "1:::2", "12345::", "g::", "::g", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1::2:", ":1::2", "1:2:3:4:5:6:7:8::", "::22222", "::1.2.3", "::1.2.3.256", "::1.2.3.4.5", "2001;db8::1", "[::1]", "fe80::1%eth0"]
BAD_NET = ["10.0.0.0/33", "10.0.0.0/", "10.0.0.0/-1", "10.0.0.0/x", "10.0.0.0/8x", "10.0.0.0/8/8", "10.0.0.0//8", "8/8", "10.0.0.0/255.0.0.0", "10.0.0.0/8.0", "::/129", "2001:db8::/", "2001:db8::/x", "::/ffff::", "10.0.0.0\\8", "10.0.0.0-10.0.0.9", "any/8", "ANY/0", "any4/8", "10.0.0.0/999", "::/1000"]
BAD_IDS = ["Ä", "A,B", "A;B", "A|B", "A+", "A:B", "A B", "'A'", '"A"', "(A)B", "A{1}", "A\\", "A=B", "~A", "$A"]


def words(e):
    """The program as words; parts: (word, role)."""
    if e[0] == "leaf":
        l = e[1]
        out = []
        if l["id"] is not None:
            out += [("id", "id"), (cafgen.p_id(l["id"]), "idval")]
        for d, ts in l["ip"]:
            out += [("ip", "ip"), (d, "dir")]
            for i, t in enumerate(ts):
                out.append((cafgen.p_token(t), "addr1" if i == 0 else "addr"))
        return out
    if e[0] == "paren":
        return [("(", "(")] + words(e[1]) + [(")", ")")]
    out = []
    for x in e[1]:
        out += [(x, "op")] if isinstance(x, str) else words(x)
    return out


def nonempty(l):
    return l["id"] is not None or l["ip"]


@st.composite
def cases(draw):
    leaf = st.one_of(p01.leafs(), cafgen.leaf(list(p01.IDS), [(4, 167837953, 167837953)])).filter(nonempty)
    e = draw(cafgen.expr(leaf, 2))
    ws = words(e)
    toks = [w for w, _ in ws]
    roles = [r for _, r in ws]
    # a glob like /*x*/ cannot be told from a comment once a word is moved
    if any(r == "idval" and (w.startswith("/*") or w.endswith("*/")) for w, r in ws):
        return None

    def at(*rs):
        return [i for i, r in enumerate(roles) if r in rs]

    def nxt(i):
        return roles[i + 1] if i + 1 < len(roles) else "end"

    kinds = ["word", "word-at-addr", "paren+", "addr", "net", "comment-open", "comment-close", "id-bad", "glue"]
    if at("(", ")"):
        kinds.append("paren-")
    if at("op"):
        kinds += ["op", "op-lost", "op-lost"]
    if at("id"):
        kinds += ["id-lost", "id-twice", "idval-lost"]
    if at("ip"):
        kinds += ["ip-lost", "dir-lost", "addr-lost", "dir-bad", "id-late", "dir-twice", "inner", "inner"]
    k = draw(st.sampled_from(kinds))
    pick = lambda idx: draw(st.sampled_from(idx))
    bad = None
    t = list(toks)
    if k == "word":
        i = draw(st.integers(0, len(t)))
        bad = draw(st.sampled_from(BAD_WORDS))
        t.insert(i, bad)
    elif k == "paren+":
        i = draw(st.integers(0, len(t)))
        t.insert(i, draw(st.sampled_from("()")))
    elif k == "paren-":
        del t[pick(at("(", ")"))]
    elif k in ("addr", "net", "word-at-addr"):
        bad = draw(st.sampled_from({"addr": BAD_V4 + BAD_V6, "net": BAD_NET, "word-at-addr": ["foo", "ANYX", "Any", "any5", "aNy", "ANY_4", "anyx", "none", "inside", "localhost", "any-4"]}[k]))
        a = at("addr", "addr1")
        if a:
            t[pick(a)] = bad
        else:
            t = ["ip", draw(st.sampled_from(["src", "dst"])), bad]
            if draw(st.booleans()):
                t = toks + ["union"] + t
    elif k == "op":
        t[pick(at("op"))] = draw(st.sampled_from(BAD_OPS))
    elif k == "op-lost":
        c = [i for i in at("op") if nxt(i) in ("id", "(") or (nxt(i) == "ip" and roles[i - 1] == ")")]
        if not c:
            return None
        del t[pick(c)]
    elif k == "id-lost":
        del t[pick(at("id"))]
    elif k == "id-twice":
        i = pick(at("idval"))
        t[i + 1 : i + 1] = ["id", draw(st.sampled_from("ABC"))]
    elif k == "id-late":
        i = pick([j for j in at("addr", "addr1") if nxt(j) in ("ip", "end", "op", ")")])
        t[i + 1 : i + 1] = ["id", draw(st.sampled_from("ABC"))]
    elif k == "idval-lost":
        c = [i for i in at("idval") if nxt(i) in ("ip", "end", ")")]
        if not c:
            return None
        del t[pick(c)]
    elif k == "ip-lost":
        del t[pick(at("ip"))]
    elif k == "dir-lost":
        del t[pick(at("dir"))]
    elif k == "dir-bad":
        t[pick(at("dir"))] = draw(st.sampled_from(["any", "both", "SRC", "source", "src,dst", "destination", "sr", "in"]))
    elif k == "inner":
        # a part of a set in parentheses of its own
        c = [i for i in at("ip") if i and roles[i - 1] in ("idval", "addr", "addr1")]
        if not c:
            return None
        i = j = pick(c)
        while j < len(t) and roles[j] in ("ip", "dir", "addr", "addr1"):
            j += 1
        t[j:j], t[i:i] = [")"], ["("]
    elif k == "dir-twice":
        i = pick(at("dir"))
        t.insert(i, draw(st.sampled_from(["src", "dst"])))
    elif k == "addr-lost":
        i = pick(at("addr1"))
        j = i + 1
        while j < len(t) and roles[j] == "addr":
            j += 1
        del t[i:j]
    elif k == "comment-open":
        i = draw(st.integers(0, len(t)))
        # an open comment at the end or start of the program, or anywhere between
        t.insert(i, draw(st.sampled_from(["/* x", "/* union id A", "/* *", "/*/ x", "/* x * /", "/* (", "/* x\n"])))
        if i > 0 and roles[i - 1] == "id":
            return None
    elif k == "comment-close":
        i = draw(st.integers(0, len(t)))
        t.insert(i, draw(st.sampled_from(["*/", "x */", "/* x */ */"])))
        if i > 0 and roles[i - 1] == "id":
            return None
    elif k == "id-bad":
        bad = draw(st.sampled_from(BAD_IDS))
        a = at("idval")
        if a:
            t[pick(a)] = bad
        else:
            t = ["id", bad]
    elif k == "glue":
        # words run together that must stand apart
        c = [i for i in range(len(t) - 1) if t[i + 1][0].isalnum() and (roles[i] in ("ip", "dir") or (roles[i] == "op" and roles[i + 1] in ("id", "ip")) or (roles[i] == "id" and roles[i + 1] == "idval"))]
        if not c:
            return None
        i = pick(c)
        t[i : i + 2] = [t[i] + t[i + 1]]
        if i > 0 and roles[i - 1] == "id":
            return None
    return {"kind": k, "good": " ".join(toks), "bad": draw(st.sampled_from([" ", "\n"])).join(t), "via": draw(st.sampled_from(["text", "text", "bytes", "file", "path"]))}


def check(case, ctx):
    ctx.label(case["kind"], "via-" + case["via"])
    ctx.note(True, f"{case['kind']}: {case['bad'][:400]}", key=case["bad"])
    with ctx.sut(f"loading the valid filter {case['good']!r}"):
        p20.load(case["good"], "text", False)
    ctx.must_raise(f"fault {case['kind']}: {case['bad']!r}", p20.load, case["bad"], case["via"], False)


SUBS = [Sub("faults", lambda: cases().filter(lambda c: c is not None), check, 3000, 60000)]
