"""One case = a configuration in one of the three formats plus filters near it."""
import copy

from hypothesis import strategies as st

from vlib import asa, cafgen, ios, parse, pf


def views(fmt, cfg):
    """[(acl id, source spec, destination spec)] of the rules, from the items."""
    if fmt == "asa":
        sp = asa.specs(cfg)
        out = []
        for it in cfg["items"]:
            if it["k"] == "rule":
                s = asa.to_spec(it["src"], sp) if "src" in it else ["any"]
                d = asa.to_spec(it["dst"], sp) if "dst" in it else ["any"]
                out.append((it["id"], s, d))
        return out
    if fmt == "ios":
        sp = ios.specs(cfg)
        return [(n, ios.to_spec(e["src"], sp), ios.to_spec(e["dst"], sp) if "dst" in e else ["any"]) for n, t, e in ios.raw_rules(cfg)]
    sp = pf.specs(cfg)
    al = pf.alias_of(cfg)

    def end(e):
        a = e["addr"]
        if a[0] == "ifnet":
            return ["iface", al[a[1]]]
        return sp[a[1]] if a[0] == "grp" else a

    return [(al[r["if"]], end(r["src"]), end(r["dst"])) for r in cfg["rules"]]


def text(fmt, cfg):
    return {"asa": asa, "ios": ios, "pf": pf}[fmt].text(cfg)


def load(fmt, cfg):
    return {"asa": parse.asa, "ios": parse.ios, "pf": parse.pf}[fmt](text(fmt, cfg))


@st.composite
def config(draw, fmts=("asa", "ios", "pf"), **kw):
    fmt = draw(st.sampled_from(fmts))
    if fmt == "asa":
        return fmt, draw(asa.config(**{"kinds": ("extended", "standard"), "max_rules": 8, "max_defs": 6, "min_rules": 1, "ifaces": False, "times": False, "services": False, "remarks": False, **kw}))
    if fmt == "ios":
        return fmt, draw(ios.config(acls=(1, 3), max_defs=3, n_ifaces=(0, 0), routes=0))
    return fmt, draw(pf.config(seps=False))


@st.composite
def kin(draw, fmt, cfg):
    """More rules of the same lists that have one end in common with another rule, down to the same object or group."""
    if fmt == "asa":
        lists = [(cfg["items"], [it for it in cfg["items"] if it["k"] == "rule" and it["ext"] == "extended"])]
    elif fmt == "ios":
        lists = [(it["es"], list(it["es"])) for it in cfg["items"] if it["k"] == "acl" and it["t"] == "extended"]
    else:
        lists = []
        for tag in dict.fromkeys(r["if"] for r in cfg["rules"]):
            lists.append((cfg["rules"], [r for r in cfg["rules"] if r["if"] == tag]))
    lists = [x for x in lists if x[1]]
    if not lists:
        return
    where, rs = draw(st.sampled_from(lists))
    for _ in range(draw(st.integers(1, 4))):
        a, b = draw(st.sampled_from(rs)), draw(st.sampled_from(rs))
        end, other = draw(st.permutations(["src", "dst"]))
        n = copy.deepcopy(a)
        if fmt == "pf":
            n[end]["addr"] = copy.deepcopy(b[other]["addr"])
            where.insert(where.index(a), n)
        else:
            n[end] = copy.deepcopy(b[other])
            where.append(n)


@st.composite
def filtered(draw, fmts=("asa", "ios", "pf"), n=(3, 8), leaf_kw={}, **kw):
    fmt, cfg = draw(config(fmts, **kw))
    if draw(st.integers(0, 2)) == 0:
        draw(kin(fmt, cfg))
    vs = views(fmt, cfg)
    ivs = []
    for _, s, d in vs:
        cafgen.bounds(s, ivs)
        cafgen.bounds(d, ivs)
    ids = sorted({v[0] for v in vs}) or ["A"]
    leafs = [draw(cafgen.leaf(ids, ivs, **leaf_kw)) for _ in range(draw(st.integers(*n)))]
    return {"fmt": fmt, "cfg": cfg, "leaves": leafs}
