"""The shipped front ends report what the configuration and the filter say."""
import ast
import collections
import contextlib
import importlib.util
import io
import os
import pickle
import re
import runpy
import shutil
import sys
import tempfile
import traceback
import types

from hypothesis import strategies as st

from checks import p16
from vlib import asa, cafgen, env, gen, ios, parse, pf, world
from vlib import netmodel as nm
from vlib.core import Sub

ID = "P24"
RULE = (
    "web: Hypothesis draws 1-3 configurations of any format and a history of requests to the shipped Flask application "
    "(upload, upload of broken text, index, show with or without filter, expansion and 'show not selected', malformed "
    "filter, unknown name); a reference store keeps what was uploaded last under each name, and every page must list "
    "exactly the rules the reference model selects from that text, with the definitions of a freshly loaded instance. "
    "cli: the same for the command line programs (static report, filter listing, hand-made filter). Non-trivial: a "
    "filter selects some but not all rules, or (web) a configuration is shown again after another request changed or "
    "expanded something."
)
ASSUMPTIONS = ["the web application's store (flask_shelve, not installed) is stood in for by a dictionary of pickles, as a shelf keeps them"]

APP = {}


class Shelf(collections.abc.MutableMapping):
    """What a shelf without write-back is: pickles by name."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return pickle.loads(self.d[k])

    def __setitem__(self, k, v):
        self.d[k] = pickle.dumps(v)

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)


def webapp():
    if "app" not in APP:
        m = types.ModuleType("flask_shelve")
        m.store = {}
        m.init_app = lambda app: None
        m.get_shelve = lambda mode="c": Shelf(m.store)
        sys.modules["flask_shelve"] = m
        path = os.path.join(env.REPO, "examples", "render", "dynamic.py")
        spec = importlib.util.spec_from_file_location("acltk_example_dynamic", path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = mod
        spec.loader.exec_module(mod)
        mod.app.testing = True
        APP["app"], APP["shelve"] = mod.app, m
    return APP["app"], APP["shelve"]


@st.composite
def one(draw):
    fmt = draw(st.sampled_from(["asa", "asa", "ios", "pf"]))
    if fmt == "asa":
        return fmt, draw(asa.config(nat=draw(st.sampled_from([0, 3])), max_rules=6, max_defs=8, min_rules=1))
    if fmt == "ios":
        return fmt, draw(ios.config(acls=(1, 3), max_defs=5, max_entries=4).filter(lambda c: ios.raw_rules(c)))
    # the front end never fetches tables, and neither does the reference
    return fmt, draw(pf.config())


@st.composite
def web_cases(draw):
    cfgs = [list(draw(one())) for _ in range(draw(st.sampled_from([1, 2, 2, 3])))]
    ids, ivs = set(), []
    for fmt, cfg in cfgs:
        for i, a, b in world.views(fmt, cfg):
            ids.add(i)
            cafgen.bounds(a, ivs)
            cafgen.bounds(b, ivs)
    leaf = cafgen.leaf(sorted(ids) or ["A"], ivs)
    exprs = [draw(cafgen.expr(leaf, 1)) for _ in range(draw(st.integers(1, 3)))]
    ops = [["add", 0, 0]]
    for _ in range(draw(st.integers(3, 9))):
        op = draw(st.sampled_from(["add", "add", "index", "show", "show", "show", "filter", "filter", "filter", "bad-filter", "broken", "unknown"]))
        ops.append([op, draw(st.integers(0, 2)), draw(st.integers(0, 11))])
    return {"cfgs": cfgs, "exprs": exprs, "ops": ops}


def listing(page):
    """The report of a page, and whether its shape is that of a report."""
    return p16.report(page)


def check_web(case, ctx):
    app, shelve = webapp()
    cfgs = [tuple(x) for x in case["cfgs"]]
    texts = [world.text(f, c) for f, c in cfgs]
    views = [world.views(f, c) for f, c in cfgs]
    cafs = [cafgen.p_expr(e) for e in case["exprs"]]
    load = {"asa": parse.asa, "ios": parse.ios, "pf": parse.pf}
    with ctx.sut("loading a configuration"):
        names = [load[f](t).name for (f, c), t in zip(cfgs, texts)]
    ctx.label(*[f for f, _ in cfgs])
    ctx.label("replaced by another of the same name" if len(set(names)) < len(names) else "distinct names")
    shelve.store.clear()
    client = app.test_client()
    stored = {}
    touched = set()
    proper = again = False
    full = {}

    def reference(k, expand, sel_idx):
        c = load[cfgs[k][0]](texts[k])
        if expand:
            c.expand()
        items = list(c.rules.rules) + [n for q in (1, 2, 3) for n in c.nat[q]]
        sel = None if sel_idx is None else c.resolve({items[n] for n in sel_idx})
        return p16.report(p16.template().render(aclconfig=c, selection=sel, caf="", args={}))

    for step, (op, k, n) in enumerate(case["ops"]):
        k %= len(cfgs)
        ctx.label(op)
        what = f"request {step}: {op}"
        if op == "add":
            with ctx.sut(what):
                r = client.post("/add", data={"file": (io.BytesIO(texts[k].encode("utf-8")), "x.conf")}, content_type="multipart/form-data")
                code, where = r.status_code, r.headers.get("Location", "")
            ctx.eq(f"{what}: status", code, 302)
            stored[names[k]] = k
            touched.clear()
            continue
        if op == "broken":
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    client.post("/add", data={"file": (io.BytesIO(texts[k].encode("utf-8") + b"\n$$ bad"), "x.conf")}, content_type="multipart/form-data")
            except Exception:
                pass
            continue
        if op == "index":
            with ctx.sut(what):
                page = client.get("/").get_data(as_text=True)
            got = [x.partition("</option>")[0] for x in page.split("<option>")[1:]]
            ctx.eq(f"{what}: names offered", got, sorted(stored))
            continue
        if op == "unknown" or names[k] not in stored:
            q = "no-such-name" if op == "unknown" else names[k]
            with ctx.sut(what):
                code = client.get("/show", query_string={"config": q}).status_code
            ctx.eq(f"{what}: status", code, 404)
            continue
        k = stored[names[k]]
        args = {"config": names[k]}
        expand, sns = n % 3 == 0, n % 4 == 1
        if expand:
            args["exp"] = "1"
            ctx.label("expanded")
        if sns:
            args["sns"] = "1"
        idx = None
        if op == "filter":
            i = n % len(cafs)
            args["caf"] = cafs[i]
            nr = len(views[k])
            with ctx.sut(f"{what}: NAT entries of the filter"):
                c = load[cfgs[k][0]](texts[k])
                sel = c.filter(parse.caf(cafs[i]))
                nats = [x for q in (1, 2, 3) for x in c.nat[q]]
                nat_idx = [nr + j for j, x in enumerate(nats) if x in sel]
            rule_idx = sorted(cafgen.evaluate(case["exprs"][i], lambda l: {j for j, v in enumerate(views[k]) if cafgen.leaf_match(l, *v)}))
            proper = proper or 0 < len(rule_idx) < nr
            idx = rule_idx + nat_idx
        elif op == "bad-filter":
            args["caf"] = cafs[n % len(cafs)] + [" union (", " foo )", " ) ip", " ip src 300.1.1.1"][n % 4]
        with ctx.sut(what):
            r = client.get("/show", query_string=args)
            code, page = r.status_code, r.get_data(as_text=True)
        ctx.eq(f"{what}: status", code, 200)
        got = p16.report(page)
        with ctx.sut(f"{what}: reference"):
            want = reference(k, expand, None if sns else idx)
            every = reference(k, expand, None)
        ctx.eq(f"{what}: warning shown", "border:7px solid" in page, op == "bad-filter")
        if idx is None or sns:
            ctx.eq(f"{what}: rules listed", got["rules"], every["rules"])
            ctx.eq(f"{what}: NAT entries listed", got["nat"], every["nat"])
        else:
            nr = len(views[k])
            ctx.eq(f"{what} {args['caf']}: rules listed", got["rules"], [every["rules"][j] for j in idx if j < nr])
            ctx.eq(f"{what}: NAT entries listed", got["nat"], [every["nat"][j - nr] for j in idx if j >= nr])
        ctx.eq(f"{what}: definitions listed", got["defs"], want["defs"])
        if k in touched:
            again = True
        touched.add(k)
    ctx.note(proper or again, " ; ".join(f"{o}:{k}.{n}" for o, k, n in case["ops"]) + "\n" + " | ".join(cafs) + "\n" + texts[0][:500])


# --- command line programs -------------------------------------------------------


@st.composite
def cli_cases(draw):
    fmt, cfg = draw(one())
    ids, ivs = set(), []
    for i, a, b in world.views(fmt, cfg):
        ids.add(i)
        cafgen.bounds(a, ivs)
        cafgen.bounds(b, ivs)
    leaf = cafgen.leaf(sorted(ids) or ["A"], ivs)
    return {"fmt": fmt, "cfg": cfg, "expr": draw(cafgen.expr(leaf, 2)), "expand": draw(st.booleans()), "caf": draw(st.integers(0, 3)) > 0}


def program(name, argv, cwd=None, path=None):
    """Runs one of the shipped programs, returns what it prints."""
    old, oldcwd, out = sys.argv, os.getcwd(), io.StringIO()
    path = path or os.path.join(env.REPO, "examples", name)
    try:
        sys.argv = [path] + argv
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out):
            runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError(f"{name} ended with {e.code}") from e
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return out.getvalue()


@contextlib.contextmanager
def scratch(**files):
    d = tempfile.mkdtemp(prefix="acltk-cli-")
    try:
        for n, t in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(t.encode("utf-8"))
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_cli(case, ctx):
    fmt, cfg = case["fmt"], case["cfg"]
    text, caf = world.text(fmt, cfg), cafgen.p_expr(case["expr"])
    vs = world.views(fmt, cfg)
    want = sorted(cafgen.evaluate(case["expr"], lambda l: {j for j, v in enumerate(vs) if cafgen.leaf_match(l, *v)}))
    ctx.label(fmt)
    ctx.note(0 < len(want) < len(vs), caf + "\n" + text[:800])
    if fmt == "pf" and any(a["t"] == "urltable" for a in cfg["aliases"]):
        # these two programs would go and fetch the table
        ctx.note(False)
        return
    with scratch(acls=text, caf=caf) as d:
        with ctx.sut("examples/caf-filter.py"):
            out = program("caf-filter.py", [os.path.join(d, "caf"), os.path.join(d, "acls")])
        with ctx.sut("loading the configuration"):
            c = {"asa": parse.asa, "ios": parse.ios, "pf": parse.pf}[fmt](text)
            rules = list(c.rules.rules)
            reprs = [repr(rules[n]) for n in want]
            head = f"{parse.caf(caf)}\n{len(want)}\n"
        ctx.true(f"caf-filter.py says how many rules {caf} selects: {len(want)}", out.startswith(head), out[:400])
        lines = lambda s: sorted(s.split("\n"))
        ctx.eq(f"rules caf-filter.py lists for {caf}", lines(out[len(head) :]), lines("".join(r + "\n" for r in reprs)))

        args = [os.path.join(d, "acls"), "-o", os.path.join(d, "out.html")]
        if case["caf"]:
            args += ["--caf", os.path.join(d, "caf")]
        if case["expand"]:
            args.append("--expand")
        with ctx.sut("examples/render/static.py"):
            program("render/static.py", args, os.path.join(env.REPO, "examples", "render"))
            with open(os.path.join(d, "out.html")) as f:
                got = p16.report(f.read())
        with ctx.sut("reference"):
            c2 = {"asa": parse.asa, "ios": parse.ios, "pf": parse.pf}[fmt](text)
            if case["expand"]:
                c2.expand()
            every = p16.report(p16.template().render(aclconfig=c2, selection=None, caf="", args={}))
        ctx.eq("rules in the static report", got["rules"], [every["rules"][n] for n in want] if case["caf"] else every["rules"])
        if not case["caf"]:
            ctx.eq("NAT entries in the static report", got["nat"], every["nat"])
            ctx.eq("definitions in the static report", got["defs"], every["defs"])


# --- the hand-made filter -----------------------------------------------------


NETS = [(4, nm.ip("10.1.0.0")[1], nm.ip("10.1.0.255")[1]), (4, nm.ip("10.2.0.0")[1], nm.ip("10.2.0.255")[1])]


@st.composite
def manual_cases(draw):
    def end():
        t = draw(cafgen.near(NETS)) if draw(st.integers(0, 4)) else ["any"]
        return [t[0].lower()] if len(t) == 1 else t

    return [
        [draw(st.sampled_from(["inside_in", "inside_in", "outside_in", "outside_in", "inside_in2", "Inside_in", "dmz"])), draw(st.booleans()), end(), end()]
        for _ in range(draw(st.integers(1, 10)))
    ]


def p_end(t):
    if t[0] == "host":
        return t[1] + "/128" if ":" in t[1] else "host " + t[1]
    if t[0] == "net":
        return f"{t[1]}/{t[2]}" if ":" in t[1] else f"{t[1]} {nm.netmask(t[2])}"
    return t[0]


def misnamed_ends(e):
    """Did a call in acl-filter.py that passes source= and dest= to ACLRule, which it does not know, fail?"""
    path = os.path.join(env.REPO, "examples", "acl-filter.py")
    with open(path) as f:
        tree = ast.parse(f.read())
    calls = [n for n in ast.walk(tree) if isinstance(n, ast.Call) and {"source", "dest"} <= {k.arg for k in n.keywords}]
    return any(
        t.filename == path and any(n.lineno <= t.lineno <= n.end_lineno for n in calls)
        for t in traceback.extract_tb(e.__traceback__)
    )


def check_manual(case, ctx):
    text = "".join(f"access-list {i} extended {'permit' if m else 'deny'} ip {p_end(s)} {p_end(d)}\n" for i, m, s, d in case)

    def sel(net):
        n = [["net", net, 24]]
        ls = [{"id": ["lit", "inside_in"], "ip": [["dst", n]]}, {"id": ["lit", "outside_in"], "ip": [["src", n]]}]
        return {j for j, (i, m, s, d) in enumerate(case) if any(cafgen.leaf_match(l, i, s, d) for l in ls)}

    anyany = {j for j, (i, m, s, d) in enumerate(case) if s == ["any"] and d == ["any"]}
    base, rules = sel("10.2.0.0"), sel("10.1.0.0")
    u = anyany | base
    remain = sorted(rules - u)
    ctx.note(remain and u, text)
    with scratch(acls=text) as d:
        with ctx.sut("examples/acl-filter.py"):
            try:
                out = program("acl-filter.py", [os.path.join(d, "acls")])
            except Exception as e:
                if not (misnamed_ends(e) and ctx.listed("P24-acl-filter-ends")):
                    raise
                # the listed finding: look at what the program does with these calls put right
                ctx.label("listed finding")
                with open(os.path.join(env.REPO, "examples", "acl-filter.py")) as f:
                    src = f.read()
                fixed = os.path.join(d, "acl-filter.py")
                with open(fixed, "w") as f:
                    f.write(re.sub(r"\bdest=", "dst=", re.sub(r"\bsource=", "src=", src)))
                out = program("acl-filter.py", [os.path.join(d, "acls")], path=fixed)
            out = out.splitlines()
        with ctx.sut("loading the configuration"):
            c = parse.asa(text)
            reprs = [repr(c.rules.rules[j]) for j in remain]
    ctx.eq("what acl-filter.py prints", out, [f"anyany {len(anyany)}", f"base {len(base)}", f"union {len(u)}", f"rules {len(rules)}", f"remain {len(remain)}"] + reprs)


SUBS = [
    Sub("web", web_cases, check_web, 160, 4000),
    Sub("cli", cli_cases, check_cli, 160, 4000),
    Sub("manual", manual_cases, check_manual, 300, 6000),
]
