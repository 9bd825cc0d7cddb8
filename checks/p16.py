"""The HTML report shows exactly the selected rules and no dangling links."""
import os
import re

from hypothesis import strategies as st

from vlib import asa, big, cafgen, env, ios, parse, pf, world
from vlib.core import Sub

ID = "P16"
RULE = (
    "Hypothesis draws a configuration in one of the formats (nested groups of every kind, objects, names, time ranges, "
    "NAT, access-groups, interfaces) and either an arbitrary subset of its rules and NAT entries or a filter. The "
    "selection is resolved and rendered with the report template. The full report must list every drawn rule in order "
    "and every definition; the filtered one must consist of exactly the selected rules' and NAT entries' rows, in order "
    "and unchanged, and every link in it to an object, group, service, time range, name or interface must lead to an "
    "entry that reads as in the full report. Resolving must keep the selected rules and add no other rule. The closure "
    "of references is also computed from the drawn items. Non-trivial: a selected rule or NAT entry refers to a "
    "definition and some rule is not selected."
)
ASSUMPTIONS = ["links to access lists and to the NAT interface 'any' are left out: the list or interface need not exist"]

TPL = {}


def template():
    if "t" not in TPL:
        from jinja2 import Environment, FileSystemLoader

        e = Environment(loader=FileSystemLoader(os.path.join(env.REPO, "examples", "render", "tpl")), extensions=["jinja2.ext.loopcontrols"])
        TPL["t"] = e.get_template("static.jinja2")
    return TPL["t"]


def squeeze(s):
    return re.sub(r"<tr\s+>", "<tr>", " ".join(re.sub(r'\sclass="[^"]*"', "", s).split()))


ROUTES = re.compile(r"(?:<tr>\s*<td></td>\s*<td>(?:routes)?</td>\s*<td>\S+ via [^<]*</td>\s*</tr>\s*)+")


def settle(html):
    """Routes to one network are listed in no particular order (they are a set):
    here in that of their text."""

    def block(m):
        return "\n".join(
            f"<tr> <td></td> <td>{'' if i else 'routes'}</td> <td>{r}</td> </tr>"
            for i, r in enumerate(sorted(re.findall(r"<td>(\S+ via [^<]*)</td>", m.group(0))))
        ) + "\n"

    return ROUTES.sub(block, html)


def report(html):
    """Sections, each with the rows of its table; definitions by anchor."""
    body = settle(html[html.index("<h2>Filter</h2>") :])
    r = {"rules": [], "nat": [], "defs": {}, "links": [], "rows": []}
    for part in re.split(r"<h2>", body)[1:]:
        title, _, rest = part.partition("</h2>")
        rest = rest.partition("</table>")[0]
        rows = ["<tr" + x for x in re.split(r"<tr", rest)[1:]]
        links = re.findall(r'<a href="#([^"]*)"', rest)
        if title == "Access Control List":
            for row in rows:
                m = re.search(r"<td>(\d+\.\d+)</td>\s*<td class=\"mode_([^\"]*)\">", row)
                if m:
                    r["rules"].append([m.group(1), m.group(2), squeeze(row)])
                    r["links"] += re.findall(r'<a href="#([^"]*)"', row)
                elif r["rules"] and 'class="different_acl_id"' not in row and "<br/></td>" not in row and "Protokoll" not in row and not re.search(r'class="bg-', row):
                    r["rules"][-1][2] += squeeze(row)
        elif title == "NAT":
            r["links"] += links
            for row in rows:
                if row.count("<td") == 7 and " :: " in row:
                    r["nat"].append(squeeze(row))
                elif row.count("<td") == 7 and re.match(r'<tr\s+align="center"', row) or row.count("<td") == 2 and r["nat"] and 'colspan="1"' in row:
                    r["nat"][-1] += squeeze(row)
        elif title != "Filter":
            cur = None
            r["links"] += links
            for row in rows:
                ids = re.findall(r' id="([^"]*)"', row)
                if ids:
                    cur = []
                    for i in ids:
                        r["defs"].setdefault(i, []).append(cur)
                if cur is not None:
                    cur.append(squeeze(row))
    return r


# --- references from the drawn items -------------------------------------------


def asa_refs(cfg):
    """Anchors each definition refers to, and each rule/NAT entry in order."""
    defs, rules, nat = {}, [], {1: [], 2: [], 3: []}
    pre = {"obj": "network_object_", "grp": "network_group_", "sobj": "service_object_", "sgrp": "service_group_", "tgrp": "port_group_", "igrp": "icmp_group_", "prgrp": "protocol_group_"}

    def h(x):
        if x is None:
            return set()
        if x[0] == "pool":
            x = x[1]
        if x[0] in ("obj", "grp"):
            return {pre[x[0]] + x[1]}
        if x[0] in ("host", "net") and len(x) > 2 and isinstance(x[-1], str):
            return {"name_alias_" + x[-1]}
        return set()

    def s(x):
        return {pre[x[0]] + x[1]} if x and x[0] in ("sobj", "sgrp", "igrp", "prgrp") else set()

    def pgrp(x):
        return {"port_group_" + x[1]} if x and x[0] == "pgrp" else set()

    for it in cfg["items"]:
        k = it["k"]
        if k == "ngrp":
            defs["network_group_" + it["n"]] = set().union(*[h(m) for m in it["ms"]])
        elif k == "nobj" or k == "onat" and it.get("def"):
            defs["network_object_" + it["n"]] = set()
        elif k == "sobj":
            defs["service_object_" + it["n"]] = set()
        elif k == "sgrp":
            defs["service_group_" + it["n"]] = set().union(*[s(m) for m in it["ms"]])
        elif k == "tgrp":
            defs["port_group_" + it["n"]] = set().union(*[pgrp(m) for m in it["ms"]])
        elif k == "igrp":
            defs["icmp_group_" + it["n"]] = set().union(*[s(m) for m in it["ms"]])
        elif k == "pgrp":
            defs["protocol_group_" + it["n"]] = set().union(*[s(m) for m in it["ms"]])
        elif k == "time":
            defs["time_range_" + it["n"]] = set()
        elif k == "name":
            defs["name_alias_" + it["n"]] = set()
        if k == "rule":
            r = h(it.get("src")) | h(it.get("dst")) | s(it.get("proto")) | s(it.get("icmp")) | pgrp(it.get("sport")) | pgrp(it.get("dport"))
            for o in it.get("opts", []):
                if o[0] == "time-range":
                    r.add("time_range_" + o[1])
            rules.append(r)
        elif k == "nat":
            d = it.get("dst")
            r = h(it["real"]) | h(it["mapped"]) | (h(d[0]) | h(d[1]) if d else set())
            nat[3 if it["pos"] else 1].append(r)
        elif k == "onat":
            nat[2].append({"network_object_" + it["n"]} | h(it["mapped"] if it["mapped"][0] in ("obj", "grp", "pool") else None))
    return defs, rules, nat[1] + nat[2] + nat[3]


def ios_refs(cfg):
    defs, rules = {}, []

    def h(x):
        return {"network_group_" + x[1]} if x and x[0] == "grp" else set()

    def s(x):
        return {"service_group_" + x[1]} if x and x[0] == "sgrp" else set()

    for it in cfg["items"]:
        if it["k"] == "ngrp":
            defs["network_group_" + it["n"]] = set().union(*[h(m) for m in it["ms"]])
        elif it["k"] == "sgrp":
            defs["service_group_" + it["n"]] = set().union(*[s(m) for m in it["ms"]])
    for _, _, e in ios.raw_rules(cfg):
        rules.append(h(e.get("src")) | h(e.get("dst")) | s(e.get("proto")))
    return defs, rules


def pf_refs(cfg):
    defs, rules = {}, []
    for a in cfg["aliases"]:
        defs[("port_group_" if a["t"] == "port" else "network_group_") + a["n"]] = set()
    for r in cfg["rules"]:
        rules.append({"network_group_" + e["addr"][1] for e in (r["src"], r["dst"]) if e["addr"][0] == "grp"} | {"port_group_" + e["port"][1] for e in (r["src"], r["dst"]) if e["port"] and e["port"][0] == "pgrp"})
    return defs, rules


def references(fmt, cfg):
    if fmt == "asa":
        defs, rules, nat = asa_refs(cfg)
        return defs, rules + nat
    return {"ios": ios_refs, "pf": pf_refs}[fmt](cfg)


def closure(defs, start):
    todo, seen = list(start), set()
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += defs.get(x, ())
    return seen


@st.composite
def cases(draw, large=False):
    fmt = draw(st.sampled_from(["asa", "asa", "asa", "ios", "pf"]))
    if fmt == "asa":
        cfg = draw(asa.config(nat=draw(st.sampled_from([0, 4])), max_rules=8, max_defs=12))
    elif fmt == "ios":
        cfg = draw(ios.config())
    else:
        cfg = draw(pf.config())
    if large:
        base = asa.config(max_rules=8, max_defs=5, min_rules=4, ifaces=False) if fmt == "asa" else ios.config(acls=(1, 2), n_ifaces=(0, 0), routes=0) if fmt == "ios" else pf.config()
        cfg = draw(big.grown(fmt, base, rules=(60, 120), fan=(200, 400)))
    case = {"fmt": fmt, "cfg": cfg, "expand": draw(st.sampled_from([None] * 8 + ["early", "late"])), "again": draw(st.booleans()), "sel": None, "leaf": None}
    if draw(st.integers(0, 2)) or large:
        # bits for the rules and NAT entries in order, repeated
        case["sel"] = draw(st.lists(st.booleans(), min_size=1, max_size=9)) if not large else [True] * draw(st.sampled_from([1, 2, 3, 8])) + [False] * draw(st.sampled_from([0, 1, 5]))
    else:
        vs = world.views(fmt, cfg)
        ivs = []
        for _, a, b in vs:
            cafgen.bounds(a, ivs)
            cafgen.bounds(b, ivs)
        case["leaf"] = draw(cafgen.leaf(sorted({v[0] for v in vs}) or ["A"], ivs))
    return case


SKIP = re.compile(r"access_group_|interface_any$")


def check(case, ctx):
    fmt, cfg = case["fmt"], case["cfg"]
    with ctx.sut("loading and rendering the configuration"):
        c = world.load(fmt, cfg)
        if case["expand"] == "early":
            c.expand()
        full = report(template().render(aclconfig=c, selection=None, caf="", args={}))
    rules = list(c.rules.rules)
    nats = [n for k in (1, 2, 3) for n in c.nat[k]]
    items = rules + nats
    want_modes = modes(fmt, cfg)
    ctx.eq("rules listed in the full report", [x[1] for x in full["rules"]], want_modes)
    ctx.eq("NAT entries listed in the full report", len(full["nat"]), len(nats))
    for i in full["links"]:
        if not SKIP.match(i) and not i.startswith("interface_"):
            ctx.true("full report has no dangling link", i in full["defs"], i)

    if case["sel"] is not None:
        bits = case["sel"]
        chosen = [x for n, x in enumerate(items) if bits[n % len(bits)]]
        sel = set(chosen)
    else:
        with ctx.sut("filtering"):
            sel = set(c.filter(parse.caf(cafgen.p_leaf(case["leaf"]))))
    picked = {id(x) for x in sel}
    idx = [n for n, x in enumerate(items) if id(x) in picked]
    ctx.eq("selected entries are the configuration's own", len(idx), len(picked))
    ctx.label(fmt, "filter" if case["leaf"] else "subset")
    if case["expand"]:
        ctx.label("expanded " + case["expand"])
    with ctx.sut("resolving and rendering a selection"):
        if case.get("again"):
            # an earlier answer, used up by its owner, has no say in a later one
            c.resolve(set(sel)).clear()
        if case["expand"] == "late":
            c.resolve(set(sel))
            c.expand()
            full = report(template().render(aclconfig=c, selection=None, caf="", args={}))
        res = c.resolve(set(sel))
        kept = {id(x) for x in res} & {id(x) for x in items}
        part = report(template().render(aclconfig=c, selection=res, caf="", args={}))
    ctx.eq("rules and NAT entries after resolving", sorted(n for n, x in enumerate(items) if id(x) in kept), idx)
    ctx.eq("rules in the filtered report", [x for x in part["rules"]], [full["rules"][n] for n in idx if n < len(rules)])
    ctx.eq("NAT entries in the filtered report", part["nat"], [full["nat"][n - len(rules)] for n in idx if n >= len(rules)])
    used = 0
    for i in part["links"]:
        if SKIP.match(i) or i.startswith("interface_") and i not in full["defs"]:
            continue
        used += 1
        ctx.label("link-" + re.match(r"[a-z]+_[a-z]*", i).group(0))
        ctx.true(f"link #{i} leads to an entry of the filtered report", i in part["defs"])
    for i, entries in part["defs"].items():
        for rows in entries:
            ctx.true(f"entry of {i} reads as in the full report", rows in full["defs"].get(i, []), f"{rows} not in {full['defs'].get(i)}")
    if not case["expand"]:
        defs, refs = references(fmt, cfg)
        need = closure(defs, set().union(*[refs[n] for n in idx]))
        ctx.eq("definitions that the selection needs but that are not listed", sorted(need - set(part["defs"])), [])
        ctx.eq("definitions listed that the selection has no use for", sorted(d for d in set(part["defs"]) - need if d in defs), [])
    ctx.note(used and len(idx) < len(items), world.text(fmt, cfg)[:900])


def modes(fmt, cfg):
    if fmt == "asa":
        return [it["mode"] for it in cfg["items"] if it["k"] == "rule"]
    if fmt == "ios":
        return [e["mode"] for _, _, e in ios.raw_rules(cfg)]
    return [pf_mode(r) for r in cfg["rules"]]


def pf_mode(r):
    return "permit" if r["type"] == "pass" else "deny"


SUBS = [Sub("report", cases, check, 700, 14000), Sub("big", lambda: cases(True), check, 48, 900)]
