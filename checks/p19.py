"""Operations leave configurations alone and always give the same answer."""
import copy
import gc
import json
import os
import pickle
import re
import subprocess
import sys

from hypothesis import strategies as st

from checks import p16
from vlib import asa, cafgen, ios, observe, parse, pf, world
from vlib.core import Sub
from vlib import env

ID = "P19"
RULE = (
    "Hypothesis draws one or two configurations of any format, some filters, and a history of operations over up to five "
    "loaded instances of them: loading again, loading and dropping short-lived instances, pickling, deep copying, filtering with a fresh or an already used filter, "
    "resolving, rendering, expanding/sorting/collapsing groups as copies or in place, loading broken texts and texts that "
    "refer to another configuration's names. After every operation the complete observation of every instance is compared "
    "with the model (only an in-place operation may change one, and only its own), and results are compared with those "
    "of the first run on fresh instances. Non-trivial: at least four operations, one of them on an instance that others "
    "were derived from or that shares its text, and a filter that selects some but not all entries."
)


@st.composite
def one(draw):
    fmt = draw(st.sampled_from(["asa", "asa", "ios", "pf"]))
    if fmt == "asa":
        return fmt, draw(asa.config(nat=draw(st.sampled_from([0, 3])), min_rules=2, max_rules=7, max_defs=8))
    if fmt == "ios":
        return fmt, draw(ios.config(acls=(1, 3), max_defs=5, max_entries=4))
    return fmt, draw(pf.config())


OPS = ["filter", "filter", "filter", "refilter", "resolve", "render", "copy", "copy", "inplace", "load", "load", "transient", "pickle", "deepcopy", "broken", "undefined", "caf-broken"]


@st.composite
def cases(draw, n=(4, 12)):
    cfgs = [list(draw(one())) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    ids, ivs = set(), []
    for fmt, cfg in cfgs:
        for i, a, b in world.views(fmt, cfg):
            ids.add(i)
            cafgen.bounds(a, ivs)
            cafgen.bounds(b, ivs)
    leaf = cafgen.leaf(sorted(ids) or ["A"], ivs)
    exprs = [draw(cafgen.expr(leaf, 1)) for _ in range(draw(st.integers(2, 4)))]
    ops = [
        [draw(st.sampled_from(OPS)), draw(st.integers(0, 4)), draw(st.integers(0, 9))]
        for _ in range(draw(st.integers(*n)))
    ]
    return {"cfgs": cfgs, "exprs": exprs, "bits": draw(st.lists(st.booleans(), min_size=1, max_size=7)), "ops": ops}


def items(c):
    return list(c.rules.rules) + [n for k in (1, 2, 3) for n in c.nat[k]]


def run_filter(ctx, c, block, what):
    pos = {id(x): n for n, x in enumerate(items(c))}
    with ctx.sut(what):
        r = c.filter(block)
        got = list(r)
    for x in got:
        ctx.true(f"{what}: result holds something that is not the configuration's own", id(x) in pos, repr(x)[:200])
    out = sorted(pos[id(x)] for x in got)
    try:
        r.clear()  # what the caller does with a result must not matter
    except AttributeError:
        pass
    return out


def describe(c, x):
    if isinstance(x, str) or x is None:
        return repr(x)
    for a in ("name", "hostname", "alias"):
        if isinstance(getattr(x, a, None), str):
            return f"{type(x).__name__} {getattr(x, a)}"
    return type(x).__name__


def run_resolve(ctx, c, bits, what):
    its = items(c)
    pos = {id(x): n for n, x in enumerate(its)}
    sel = {x for n, x in enumerate(its) if bits[n % len(bits)]}
    with ctx.sut(what):
        r = c.resolve(sel)
        out = sorted(f"entry {pos[id(x)]}" if id(x) in pos else describe(c, x) for x in r)
        r.clear()  # the result belongs to the caller
        return out


def run_render(ctx, c, bits, what):
    with ctx.sut(what):
        sel = c.resolve({x for n, x in enumerate(items(c)) if bits[n % len(bits)]})
        html = p16.template().render(aclconfig=c, selection=sel, caf="", args={})
        sel.clear()
    # when it was loaded, and the ages in days
    html = re.sub(r"Erstellt am: [^<]*", "", html)
    return p16.settle(re.sub(r"\(-?\d+ days\)", "", html))


def groups(c):
    return [g for k in ("network", "service", "port", "protocol", "icmp") for g in getattr(c.groups, k).values()]


def ops_of(g):
    """Group operations that are supported for this group."""
    k = type(g).__name__
    r = ["expand"]
    if k in ("NetworkGroup", "PortGroup", "ProtocolGroup", "ServiceGroup"):
        r.append("sort")
    if k == "NetworkGroup":
        r.append("collapse")
    return r


def broken(text, n):
    """Some damage to a text (whether it loads does not matter)."""
    lines = text.split("\n")
    k = n * 7 % max(1, len(lines))
    if n % 3 == 0:
        return "\n".join(lines[: k + 1]) + " $$bad"
    if n % 3 == 1:
        lines.insert(k, "access-list X extended permit ip object no-such any")
        return "\n".join(lines)
    return text[: len(text) * (n + 1) // 11]


def undefined(fmt, cfg, n):
    """A text that refers to a name this configuration defines, without defining it."""
    c = []
    if fmt == "asa":
        for it in cfg["items"]:
            if it["k"] == "nobj":
                c.append(f"access-list Q extended permit ip object {it['n']} any\n")
            elif it["k"] == "ngrp":
                c.append(f"access-list Q extended permit ip any object-group {it['n']}\n")
                c.append(f"object-group network qq\n group-object {it['n']}\naccess-list Q extended permit ip any any\n")
            elif it["k"] == "sobj":
                c.append(f"access-list Q extended permit object {it['n']} any any\n")
            elif it["k"] == "name":
                c.append(f"access-list Q extended permit ip host {it['n']} any\n")
            elif it["k"] == "time":
                c.append(f"access-list Q extended permit ip any any time-range {it['n']}\n")
            elif it["k"] == "iface":
                c.append(f"object network qq\n host 10.1.1.1\nnat ({it['nameif']},any) source dynamic qq qq\naccess-list Q extended permit ip any any\n")
    elif fmt == "ios":
        c = [f"ip access-list extended Q\n permit ip object-group {d['n']} any\n" for d in cfg["items"] if d["k"] == "ngrp"]
    return c[n % len(c)] if c else None


def check(case, ctx):
    cfgs = [tuple(x) for x in case["cfgs"]]
    texts = [world.text(f, c) for f, c in cfgs]
    loaders = {"asa": parse.asa, "ios": parse.ios, "pf": parse.pf}
    cafs = [cafgen.p_expr(e) for e in case["exprs"]]
    ctx.label(*[f for f, _ in cfgs])

    def load(k):
        with ctx.sut(f"loading configuration {k}"):
            return loaders[cfgs[k][0]](texts[k])

    def snap(c):
        return observe.snapshot(c)

    # first runs, on two fresh instances
    base = []
    proper = False
    for k in range(len(cfgs)):
        with ctx.sut("observing"):
            fresh, c = load(k), load(k)
            s = snap(fresh)
        html = run_render(ctx, fresh, case["bits"], "rendering")
        sel = [run_filter(ctx, c, parse.caf(t), "filtering a fresh configuration") for t in cafs]
        res = run_resolve(ctx, c, case["bits"], "resolving")
        base.append({"snap": s, "sel": sel, "res": res, "html": html})
        n = len(items(c))
        proper = proper or any(0 < len(x) < n for x in sel)
    slots = [[k, load(k), base[k]["snap"], False] for k in range(len(cfgs))]  # text, config, model, changed in place
    used = {}
    derived = False

    for step, (op, s, n) in enumerate(case["ops"]):
        ctx.label(op)
        slot = slots[s % len(slots)]
        k, c, model, dirty = slot
        what = f"step {step}: {op}"
        derived = derived or len([x for x in slots if x[0] == k]) > 1
        if op == "load" and len(slots) < 5:
            k = n % len(cfgs)
            slots.append([k, load(k), base[k]["snap"], False])
        elif op in ("pickle", "deepcopy") and len(slots) < 5:
            with ctx.sut(what):
                c2 = pickle.loads(pickle.dumps(c)) if op == "pickle" else copy.deepcopy(c)
            slots.append([k, c2, model, dirty])
        elif op in ("filter", "refilter"):
            i = n % len(cafs)
            if op == "refilter":
                if i not in used:
                    used[i] = parse.caf(cafs[i])
                block = used[i]
            else:
                block = parse.caf(cafs[i])
            ctx.eq(f"{what} with {cafs[i]}", run_filter(ctx, c, block, what), base[k]["sel"][i])
        elif op == "transient":
            # instances come and go, their memory is used again
            i = n % len(cafs)
            block = used.setdefault(i, parse.caf(cafs[i]))
            for k2 in (k, n % len(cfgs), k):
                c2 = load(k2)
                ctx.eq(f"{what}: a short-lived instance with {cafs[i]}", run_filter(ctx, c2, block, what), base[k2]["sel"][i])
                del c2
                gc.collect(0)
        elif op == "resolve":
            a = run_resolve(ctx, c, case["bits"], what)
            ctx.eq(f"{what}: repeated", run_resolve(ctx, c, case["bits"], what), a)
            if not dirty:
                ctx.eq(what, a, base[k]["res"])
        elif op == "render":
            a = run_render(ctx, c, case["bits"], what)
            ctx.eq(f"{what}: repeated", run_render(ctx, c, case["bits"], what), a)
            if not dirty:
                ctx.eq(what, a, base[k]["html"])
        elif op in ("copy", "inplace"):
            gs = groups(c)
            if op == "inplace" and n % 4 == 0:
                with ctx.sut(what):
                    c.expand()
                slot[2], slot[3] = snap(c), True
            elif gs:
                g = gs[n % len(gs)]
                f = ops_of(g)[n % len(ops_of(g))]
                if f == "collapse" and not plain(g, op == "inplace"):
                    f = "expand"
                with ctx.sut(f"{what} {f}"):
                    try:
                        e = getattr(g, f)(insitu=op == "inplace")
                    except TypeError:
                        e = getattr(g, f)()
                if op == "inplace":
                    slot[2], slot[3] = snap(c), True
                elif e is not None and e is not g:
                    # what the caller does with a copy must not matter
                    e.objects.clear()
        elif op == "broken":
            try:
                loaders[cfgs[k][0]](broken(texts[k], n))
            except Exception:
                pass
        elif op == "undefined":
            t = undefined(*cfgs[k], n)
            if t:
                ctx.must_raise(f"{what}: {t!r} after a configuration that defines the name was loaded", loaders[cfgs[k][0]], t)
        elif op == "caf-broken":
            try:
                parse.caf(cafs[n % len(cafs)] + [" union (", " foo", " /*", " ip src 300.1.1.1"][n % 4])
            except Exception:
                pass
        for j, x in enumerate(slots):
            with ctx.sut(f"observing instance {j} after {what}"):
                now = snap(x[1])
            ctx.eq(f"instance {j} after {what} on instance {s % len(slots)}", now, x[2])
    # at the end every instance still answers like a fresh one
    for j, (k, c, model, dirty) in enumerate(slots):
        for i, t in enumerate(cafs):
            ctx.eq(f"instance {j} at the end, filtered with {t}", run_filter(ctx, c, parse.caf(t), "filtering at the end"), base[k]["sel"][i])
    ctx.note(len(case["ops"]) >= 4 and derived and proper, " ; ".join(f"{o}@{s % 5}.{n}" for o, s, n in case["ops"]) + "\n" + texts[0][:600])


def plain(g, insitu):
    """Is this a group collapse is defined for: only hosts and networks, in a copy also groups and objects of them?"""
    for m in g.objects:
        k = type(m).__name__
        if k == "NetworkGroup" and not insitu:
            if not plain(m, False):
                return False
        elif k == "NetworkObject" and not insitu:
            if not all(type(a).__name__ in ("Network", "NetworkHost") for a in m.addresses):
                return False
        elif k not in ("Network", "NetworkHost"):
            return False
    return True


# --- another process -----------------------------------------------------------


@st.composite
def moved(draw):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        w = draw(world.filtered())
        out.append([w["fmt"], w["cfg"], [["leaf", l] for l in w["leaves"]]])
    return {"cfgs": out, "seed": draw(st.integers(1, 10000))}


def check_moved(case, ctx):
    """A pickled configuration is taken up by a process in which words have other hash values."""
    jobs, want = [], []
    for fmt, cfg, exprs in case["cfgs"]:
        text = world.text(fmt, cfg)
        cafs = [cafgen.p_expr(e) for e in exprs]
        with ctx.sut("loading, filtering and pickling"):
            c = {"asa": parse.asa, "ios": parse.ios, "pf": parse.pf}[fmt](text)
            pos = {id(x): n for n, x in enumerate(items(c))}
            sel = [sorted(pos[id(x)] for x in c.filter(parse.caf(t))) for t in cafs]
            c.resolve(set(items(c)))
            {p for r in c.rules.rules for n in (r.src, r.dst) for p in [getattr(n, "port", None)] if p is not None}
            jobs.append({"fmt": fmt, "text": text, "cafs": cafs, "pickle": pickle.dumps(c)})
            # (after everything that may leave something behind in the objects)
            want.append({"snap": observe.snapshot(c), "sel": sel})
        ctx.label(fmt)
    e = dict(os.environ, PYTHONHASHSEED=str(case["seed"]), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, "vlib", "other.py")], input=pickle.dumps(jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=300)
    assert p.returncode == 0, p.stderr.decode("utf-8", "replace")[-2000:]
    for k, (got, w, j) in enumerate(zip(json.loads(p.stdout), want, jobs)):
        what = f"configuration {k} in another process, hash seed {case['seed']}"
        ctx.true(f"{what}: it can be taken up", len(got) == 4, got)
        ctx.eq(f"{what}, loaded anew", got[1], json.loads(json.dumps(w)))
        ctx.eq(f"{what}, pickled", got[0], json.loads(json.dumps(w)))
        ctx.eq(f"{what}: its ports compared with those of a fresh one", got[2], got[3])
    ctx.note(any(0 < len(x) < len(w["snap"]) for w in want for x in w["sel"]) and any("eq " in j["text"] or "range" in j["text"] or "<port>" in j["text"] for j in jobs), jobs[0]["text"][:600])


SUBS = [Sub("history", cases, check, 320, 8000), Sub("long", lambda: cases((25, 60)), check, 16, 400), Sub("moved", moved, check_moved, 24, 400)]
