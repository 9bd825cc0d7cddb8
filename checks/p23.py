"""The shipped parsers accept the language of the shipped grammars."""
import re

from hypothesis import strategies as st

from checks import p01
from vlib import asa, cafgen, ios, refparser
from vlib.core import Sub

ID = "P23"
RULE = (
    "A parser is generated from the .bnf files of the tree under test, in a scratch copy of the package, and runs in a "
    "process of its own. rules: a grammar rule is drawn and a text derived from it, choosing among alternatives, options "
    "and repetitions at random, then left alone or damaged (characters or words removed, doubled, swapped or replaced by "
    "other words of the grammar), and one text is made for every single choice of every rule; both parsers run this rule on it and their syntax trees are compared. texts: drawn "
    "configurations and filters, whole or damaged, are loaded by both and everything observable is compared. Both must "
    "accept with the same result, or both refuse. Non-trivial: the text is accepted, or was derived from more than one "
    "nested rule."
)

ALPHA = "abcxyzABZ0123456789-_.:/! \n"
DEPTH = 9


# --- strings from a grammar -------------------------------------------------------


def depths(g):
    """Smallest nesting depth of each rule."""
    d = {n: 99 for n in g}

    def of(x):
        k = x[0]
        if k in ("tok", "pat", "opt"):
            return 0
        if k == "rep":
            return of(x[2]) if x[1] else 0
        if k == "ref":
            return d.get(x[1], 0) + 1
        if k == "seq":
            return max([of(c) for c in x[1:]], default=0)
        return min(of(c) for c in x[1:])

    for _ in range(60):
        for n, x in g.items():
            d[n] = min(d[n], of(x))
    return d, of


CACHE = {}


def info(lang):
    if lang not in CACHE:
        g = refparser.grammar(lang)
        d, of = depths(g)
        words = sorted({t for x in g.values() for t in tokens(x)})
        CACHE[lang] = (g, of, words)
    return CACHE[lang]


def tokens(x):
    if x[0] == "tok":
        return {x[1]}
    return {t for c in x[1:] if isinstance(c, list) for t in tokens(c)}


PATTERNS = {}


def pattern(p):
    if p not in PATTERNS:
        PATTERNS[p] = st.from_regex(re.compile(p), fullmatch=True, alphabet=st.characters(min_codepoint=32, max_codepoint=126, include_characters="\n"))
    return PATTERNS[p]


def derive(draw, g, of, x, fuel, used):
    k = x[0]
    if k == "tok":
        return x[1]
    if k == "pat":
        s = draw(pattern(x[1]))
        return s[:40]
    if k == "ref":
        if x[1] not in g:
            return ""
        used.append(x[1])
        return derive(draw, g, of, g[x[1]], fuel - 1, used)
    if k == "seq":
        return "".join(derive(draw, g, of, c, fuel, used) for c in x[1:])
    if k == "alt":
        cs = [c for c in x[1:] if of(c) <= max(fuel, 0)] or [min(x[1:], key=of)]
        return derive(draw, g, of, cs[draw(st.integers(0, len(cs) - 1))], fuel, used)
    if k == "opt":
        if fuel > 0 and of(x[1]) <= fuel and draw(st.booleans()):
            return derive(draw, g, of, x[1], fuel, used)
        return ""
    n = x[1]
    if fuel > 0 and of(x[2]) <= fuel:
        n += draw(st.sampled_from([0, 1, 1, 2]))
    parts = [derive(draw, g, of, x[2], fuel, used) for _ in range(n)]
    sep = derive(draw, g, of, x[3], fuel, used) if x[3] else ""
    return sep.join(parts)


# every alternative, option and repetition of every rule, once


SAMPLES = ["", "x", "1", "A-1", "10.1.2.3", "2001:db8::1", "2020", "x y", ".", " ", "\n", "/x", "9.1(2)", "ASA Version 9.1", "10", "a.b"]


def sample(p):
    for s in SAMPLES[1:] + [""]:
        if re.fullmatch(p, s):
            return s
    return None


def minimal(g, of, x):
    """The simplest string of an expression."""
    k = x[0]
    if k == "tok":
        return x[1]
    if k == "pat":
        return sample(x[1]) or ""
    if k == "ref":
        return minimal(g, of, g[x[1]]) if x[1] in g else ""
    if k == "seq":
        return "".join(minimal(g, of, c) for c in x[1:])
    if k == "alt":
        return minimal(g, of, min(x[1:], key=of))
    if k == "opt":
        return ""
    return minimal(g, of, x[2]) if x[1] else ""


def variants(g, of, x):
    """Strings that differ from the simplest one in one choice."""
    k = x[0]
    if k == "seq":
        base = [minimal(g, of, c) for c in x[1:]]
        out = ["".join(base)]
        for i, c in enumerate(x[1:]):
            out += ["".join(base[:i] + [v] + base[i + 1 :]) for v in variants(g, of, c)]
        return out
    if k == "alt":
        return [v for c in x[1:] for v in variants(g, of, c)]
    if k == "opt":
        return [""] + variants(g, of, x[1])
    if k == "rep":
        sep = minimal(g, of, x[3]) if x[3] else ""
        m = minimal(g, of, x[2])
        return ["", m + sep + m] + variants(g, of, x[2])
    return [minimal(g, of, x)]


def every(lang):
    g, of, _ = info(lang)
    out = []
    for rule in sorted(g):
        seen = set()
        for v in variants(g, of, g[rule]):
            for s in (v, v + " x", v + "\n") if lang != "caf" else (v, v + " "):
                if s not in seen:
                    seen.add(s)
                    out.append({"lang": lang, "rule": rule, "text": s, "damaged": 0, "nested": 1})
    return out


def damage(draw, s, words):
    k = draw(st.integers(0, 6))
    if not s or k == 0:
        return s + draw(st.sampled_from([" ", "\n", "x", " x", "-", "0", "/"]))
    i = draw(st.integers(0, len(s) - 1))
    j = min(len(s), i + draw(st.sampled_from([1, 1, 2, 5])))
    if k == 1:
        return s[:i] + s[j:]
    if k == 2:
        return s[:i] + s[i:j] + s[i:]
    if k == 3:
        return s[:i] + draw(st.sampled_from(list(ALPHA))) + s[j:]
    ws = re.split(r"(\s+)", s)
    n = draw(st.integers(0, len(ws) - 1))
    if k == 4:
        ws[n] = draw(st.sampled_from(words))
    elif k == 5:
        m = draw(st.integers(0, len(ws) - 1))
        ws[n], ws[m] = ws[m], ws[n]
    else:
        ws[n : n + 1] = []
    return "".join(ws)


@st.composite
def derived(draw, lang):
    g, of, words = info(lang)
    # every rule, and those nearer to the start more often
    names = sorted(g)
    rule = draw(st.sampled_from(names))
    if draw(st.integers(0, 4)) == 0 and "grammar" in g:
        rule = "grammar"
    used = []
    s = derive(draw, g, of, g[rule], draw(st.integers(3, DEPTH)), used)
    if lang == "caf":
        # its words are set apart by blanks
        s = re.sub(r"(union|intersect|except|src|dst|ip|id|any4?|ANY[46]?|[()])", r" \1 ", s) if draw(st.booleans()) else s
    s = s[:3000]
    n = draw(st.sampled_from([0, 0, 1, 1, 2]))
    for _ in range(n):
        s = damage(draw, s, words)
    return {"lang": lang, "rule": rule, "text": s, "damaged": n, "nested": len(set(used))}


def has(lang, rule):
    """Does the shipped parser have this rule? (It need not, if it does the same without.)"""
    p = refparser._parser(lang)
    f = getattr(p, f"_{rule}_", None) or getattr(p, rule, None) or getattr(p, f"_{rule}", None)
    return f is not None


def same(ctx, what, req):
    ref = refparser.ask(req)
    got = refparser.handle(req)
    if "recursion" in ref or "recursion" in got:
        ctx.label("recursion")
        return None
    if ("ok" in ref) != ("ok" in got):
        a = "accepts, the grammar does not" if "ok" in got else "refuses, the grammar does not"
        ctx.true(f"{what}: the shipped parser {a}", False, f"shipped: {str(got)[:300]} grammar: {str(ref)[:300]}")
    if "ok" in ref:
        import json

        ctx.eq(f"{what}: shipped parser and grammar", json.loads(json.dumps(got["ok"])), ref["ok"])
    ctx.label("accepted" if "ok" in ref else "refused")
    return "ok" in ref


def check_rule(case, ctx):
    lang, rule = case["lang"], case["rule"]
    if not has(lang, rule):
        ctx.label("no such rule in the parser")
        return
    req = {"op": "raw", "lang": lang, "rule": rule, "text": case["text"]}
    ok = same(ctx, f"rule {rule} of {lang} on {case['text']!r}", req)
    ctx.label("damaged" if case["damaged"] else "as derived")
    ctx.note(ok or case["nested"] > 1, f"{lang} {rule}: {case['text'][:600]!r} -> {'accepted' if ok else 'refused'}", key=[lang, rule, case["text"]])


# --- whole texts ---------------------------------------------------------------------


@st.composite
def texts(draw, fmt):
    if fmt == "caf":
        s = cafgen.p_expr(draw(cafgen.expr(p01.leafs(), 2)))
        lang = "caf"
    elif fmt == "asa":
        s = asa.text(draw(asa.config(nat=draw(st.sampled_from([0, 3])), max_rules=5, max_defs=5)))
        lang = "fwsm"
    else:
        s = ios.text(draw(ios.config(acls=(1, 2), max_defs=3, max_entries=4)))
        lang = "ios"
    n = draw(st.sampled_from([0, 1, 1, 2]))
    for _ in range(n):
        s = damage(draw, s, info(lang)[2])
    return {"fmt": fmt, "text": s, "damaged": n}


def check_text(case, ctx):
    ok = same(ctx, f"{case['fmt']} text {case['text']!r}", {"op": "snap", "fmt": case["fmt"], "text": case["text"]})
    ctx.label("damaged" if case["damaged"] else "whole")
    ctx.note(ok, case["text"][:600])


SUBS = [
    Sub("caf-rules", lambda: derived("caf"), check_rule, 800, 20000, explicit=lambda: every("caf")),
    Sub("asa-rules", lambda: derived("fwsm"), check_rule, 4000, 100000, explicit=lambda: every("fwsm")),
    Sub("ios-rules", lambda: derived("ios"), check_rule, 4000, 100000, explicit=lambda: every("ios")),
    Sub("caf-texts", lambda: texts("caf"), check_text, 600, 15000),
    Sub("asa-texts", lambda: texts("asa"), check_text, 400, 8000),
    Sub("ios-texts", lambda: texts("ios"), check_text, 400, 8000),
]
