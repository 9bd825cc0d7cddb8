"""Layout, comments and the way of loading do not change a filter."""
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from acltk.cafObjects import cafBlock
from checks import p01
from vlib import cafgen, parse
from vlib.core import Sub

ID = "P20"
RULE = (
    "Hypothesis draws a filter expression over sets that pick arbitrary subsets of one ASA configuration and a second "
    "way of writing it: any mix of white space and line ends between the words (none where a parenthesis or a slash "
    "separates them), comments with arbitrary content at every place the language has for them (before a set, between "
    "and after its clauses, around parentheses), redundant parentheses around any operand, and loading from text, an "
    "open file or a path, with or without byte order mark. Selections must be equal. Non-trivial: at least one comment "
    "and one operator, and the selection is neither empty nor everything."
)

WS = [" ", "  ", "\n", "\r\n", "\t", "\n\n\t ", " \n", "\f", "\v", "\r"]
COMMENT_BITS = ["*", "**", "/", "/*", "//", "#", "id A", "union", ")", "(", "\n", "\r\n", " ", "except id B", "ip src any", "* /", "ä€", "'", '"', "x", "intersect", "\\", "!"]


def ws(draw, empty=False):
    k = draw(st.integers(0, 4))
    if k == 0 and empty:
        return ""
    if k <= 2:
        return " "
    return "".join(draw(st.lists(st.sampled_from(WS), min_size=1, max_size=3)))


def comments(draw, before_ws):
    """Optional comments; before_ws: white space must come first."""
    if draw(st.integers(0, 3)):
        return ""
    out = ""
    for i in range(draw(st.sampled_from([1, 1, 1, 1, 1, 2, 2, 2, 2, 24]))):
        body = "".join(draw(st.lists(st.sampled_from(COMMENT_BITS), max_size=6))).replace("*/", "* /")
        if draw(st.integers(0, 11)) == 0:
            # of any length
            body = (body * draw(st.sampled_from([9, 99, 999, 4000]))).replace("*/", "* /")[: draw(st.sampled_from([99, 1000, 5000, 20000]))]
            body = body[:-1] if body.endswith("*") else body
        out += ws(draw, empty=i > 0 or not before_ws) + "/*" + body + "*/"
    return out


def w_token(draw, t):
    if t[0] == "net":
        return t[1] + draw(st.sampled_from(["/", "/", " / ", "\n/", "/\t"])) + str(t[2])
    return cafgen.p_token(t)


def w_leaf(draw, leaf):
    s = comments(draw, False)
    if s:
        s += ws(draw, True)
    first = True
    if leaf["id"] is not None:
        s += "id" + ws(draw) + cafgen.p_id(leaf["id"])
        s += comments(draw, True)
        first = False
    for d, ts in leaf["ip"]:
        s += ("" if first else ws(draw)) + "ip" + ws(draw) + d + "".join(ws(draw) + w_token(draw, t) for t in ts)
        s += comments(draw, True)
        first = False
    return s


def w_paren(draw, inner):
    a = comments(draw, False)
    s = (a + ws(draw, True) if a else "") + "(" + ws(draw, True) + inner + ws(draw, True) + ")"
    return s + comments(draw, False)


def w_expr(draw, e):
    if e[0] == "leaf":
        s = w_leaf(draw, e[1])
    elif e[0] == "paren":
        s = w_paren(draw, w_expr(draw, e[1]))
    else:
        s = ""
        for i, x in enumerate(e[1]):
            s += x if isinstance(x, str) else w_expr(draw, x)
            if i + 1 < len(e[1]):
                s += ws(draw)
    while draw(st.integers(0, 6)) == 0:
        s = w_paren(draw, s)
    return s


@st.composite
def cases(draw, large=False):
    e = draw(cafgen.long_expr(p01.leafs(), (6, 30), 4) if large else cafgen.expr(p01.leafs(), 2))
    return {
        "expr": e,
        "text": ws(draw, True) + w_expr(draw, e) + ws(draw, True),
        "via": draw(st.sampled_from(["text", "text", "bytes", "file", "path"])),
        "bom": draw(st.booleans()),
    }


def load(text, via, bom, what="f.caf"):
    if via == "text":
        return cafBlock.fromString(text)
    data = (b"\xef\xbb\xbf" if bom else b"") + text.encode("utf-8")
    if via == "bytes":
        return cafBlock.fromFile(io.BytesIO(data))
    d = tempfile.mkdtemp(prefix="p20-")
    try:
        path = os.path.join(d, what)
        with open(path, "wb") as f:
            f.write(data)
        if via == "path":
            return cafBlock.fromPath(path)
        with open(path, "rb") as f:
            return cafBlock.fromFile(f)
    finally:
        shutil.rmtree(d)


def check(case, ctx):
    c = p01.config()
    plain = cafgen.p_expr(case["expr"])
    with ctx.sut(f"running the plain filter {plain}"):
        want = sorted(p01.index(c, c.filter(parse.caf(plain))))
    with ctx.sut(f"loading the laid out filter by {case['via']}"):
        block = load(case["text"], case["via"], case["bom"])
        got = sorted(p01.index(c, c.filter(block)))
    total = len(c.rules.rules) + sum(len(v) for v in c.nat.values())
    ctx.label("via-" + case["via"])
    if "/*" in case["text"]:
        ctx.label("comment")
    if "\n" in case["text"]:
        ctx.label("line ends")
    if case["text"].count("(") > plain.count("("):
        ctx.label("redundant parentheses")
    ctx.note("/*" in case["text"] and cafgen.ops(case["expr"]) and 0 < len(want) < total, case["text"][:800])
    ctx.eq(f"selection of {case['text']!r} compared with {plain!r}", got, want)


SUBS = [Sub("layout", cases, check, 2500, 60000), Sub("long", lambda: cases(True), check, 80, 3000)]
