"""pfSense/OPNsense configurations: generator, XML printer, expected parse result."""
import datetime
import html
import ipaddress
import urllib.parse
from xml.sax.saxutils import escape

from hypothesis import strategies as st

from vlib import gen
from vlib import netmodel as nm

DESCRS = ["DMZ", "GUEST", "Guest WLAN", "dmz-10", "dmz-1", "Büro", "A&B", "LAN", "WAN", "x<y>"]
ALIAS_NAMES = ["web", "web1", "web10", "Web", "srv_a", "n1", "ports", "p80", "any_", "_x", "lan_hosts", "opt", "p", "a", "B", "_"]
PROTOS = ["tcp", "udp", "tcp/udp", "icmp", "esp", "ipv6", "gre", "carp"]


# what an XML document may start with
PROLOGS = [
    '<?xml version="1.0"?>\n',
    '<?xml version="1.0"?>\n',
    "",
    "\n",
    "  \n\n",
    "<!-- saved by hand -->\n",
    '<?xml version="1.0"?><!-- x --> ',
    "<?xml version='1.0' standalone='yes'?>\n\n<!-- hostname fw -->\n",
    "<!DOCTYPE ROOT>\n",
]


@st.composite
def desc(draw):
    return draw(st.one_of(st.just(""), gen.freetext(), st.sampled_from(["a < b", "R&D", "&amp;", "\"q\" 'x'", "<b>x</b>"])))


@st.composite
def alias_item(draw, n):
    t = draw(st.sampled_from(["host", "host", "network", "network", "port", "urltable"]))
    a = {"n": n, "t": t, "d": draw(desc())}
    if t == "host":
        a["ms"] = draw(st.lists(st.one_of(gen.written(gen.host()), gen.written(gen.host()), st.sampled_from([["fqdn", "www.example.com"], ["fqdn", "srv-1.local"]])), max_size=5))
    elif t == "network":
        a["ms"] = draw(st.lists(gen.written(gen.net()), max_size=5))
    elif t == "port":
        a["ms"] = draw(st.lists(st.one_of(gen.PORT_NUMS.map(lambda p: ["port", "eq", str(p)]), gen.port_range().map(lambda r: ["range"] + r)), max_size=5))
    else:
        a["ms"] = draw(st.lists(st.one_of(gen.written(gen.host()), gen.written(gen.net()), st.sampled_from([["junk", "# comment"], ["junk", ""], ["junk", "not an address"], ["junk", "300.1.1.1"], ["junk", "10.0.0.0/33"]])), max_size=6))
        a["ms"] = [["net", nm.fmt(nm.ip(m[1])[0], nm.prefix_bounds(*nm.ip(m[1]), m[2])[0]), m[2]] if m[0] == "net" else m for m in a["ms"]]
        a["eol"] = draw(st.sampled_from(["\n", "\r\n"]))
    return a


@st.composite
def iface_item(draw, tag, descr):
    i = {"tag": tag, "if": draw(gen.some(["em0", "em1", "igb0.10", "vtnet0"])), "d": descr, "ip": None}
    k = draw(st.integers(0, 2))
    if k == 0:
        i["ip"] = "dhcp"
    elif k == 1:
        i["ip"] = [draw(gen.v4), draw(st.integers(1, 32))]
    return i


@st.composite
def endpoint(draw, w):
    e = {}
    k = draw(st.integers(0, 6))
    if k <= 1:
        e["addr"] = ["any"]
    elif k == 2:
        e["addr"] = ["ifnet", draw(st.sampled_from(w["tags"]))]
    elif k <= 4 and w["nets"]:
        e["addr"] = ["grp", draw(st.sampled_from(w["nets"]))]
    elif k == 5:
        e["addr"] = draw(gen.written(gen.net()))
    else:
        e["addr"] = draw(gen.written(gen.host()))
    k = draw(st.integers(0, 5))
    e["port"] = None
    if k == 0:
        e["port"] = ["port", "eq", str(draw(gen.PORT_NUMS))]
    elif k == 1:
        e["port"] = ["range"] + draw(gen.port_range())
    elif k == 2 and w["ports"]:
        e["port"] = ["pgrp", draw(st.sampled_from(w["ports"]))]
    return e


@st.composite
def rule_item(draw, w, tag):
    r = {
        "type": draw(st.sampled_from(["pass", "pass", "block", "reject"])),
        "if": tag,
        "proto": draw(st.one_of(st.none(), st.sampled_from(PROTOS))),
        "src": draw(endpoint(w)),
        "dst": draw(endpoint(w)),
        "d": draw(desc()),
        "tracker": draw(st.one_of(st.none(), st.integers(10**8, 2 * 10**9).map(str))),
        "log": draw(st.booleans()),
        "disabled": draw(st.integers(0, 3)) == 0,
        "quick": draw(st.booleans()),
        "state": draw(st.sampled_from([None, None, "keep state", "sloppy state", "none"])),
        "icmp": None,
        "created": draw(st.one_of(st.none(), st.integers(10**9, 1_600_000_000))),
        "updated": draw(st.one_of(st.none(), st.integers(10**9, 1_600_000_000))),
        "extra": draw(st.lists(st.sampled_from(["id", "tag", "tagged", "max", "max-src-nodes", "max-src-conn", "max-src-states", "statetimeout", "os"]), max_size=2, unique=True)),
    }
    if r["proto"] == "icmp" and draw(st.booleans()):
        r["icmp"] = draw(st.sampled_from(["echoreq", "echorep", "unreach", "any"]))
    if tag == "floating":
        r["fifs"] = draw(st.lists(st.sampled_from(w["tags"]), min_size=1, max_size=3, unique=True))
        r["dir"] = draw(st.sampled_from(["any", "in", "out"]))
    r["order"] = draw(st.integers(0, 3))
    return r


@st.composite
def config(draw, max_rules=8, max_aliases=5, seps=True):
    w = {}
    tags = ["wan", "lan"] + [f"opt{i}" for i in (1, 2, 10)][: draw(st.integers(0, 3))]
    # descriptions that read like the name of another interface, too
    ds = draw(st.permutations(DESCRS + ["opt1", "opt2", "opt10", "wan", "lan"]))
    ifs = []
    for t, d in zip(tags, ds):
        if t.startswith("opt"):
            d = draw(st.sampled_from([d, d, d, d, None, ""]))
            # optN goes by its description: no two of one name
            if d in ("wan", "lan") or (d or t) in [i["d"] or i["tag"] for i in ifs if i["tag"].startswith("opt")]:
                d = next(x for x in DESCRS if x not in [i["d"] for i in ifs])
        else:
            d = draw(st.sampled_from([d, d, d, ""]))
        ifs.append(draw(iface_item(t, d)))
    w["tags"] = tags
    al = [draw(alias_item(n)) for n in draw(st.lists(gen.some(ALIAS_NAMES, gen.ident("_")), max_size=max_aliases, unique=True))]
    w["nets"] = [a["n"] for a in al if a["t"] != "port"]
    w["ports"] = [a["n"] for a in al if a["t"] == "port"]
    rules = []
    used = draw(st.lists(st.sampled_from(["floating"] + tags), min_size=1, max_size=len(tags) + 1, unique=True))
    # pfSense keeps the rules of one interface together
    left = draw(st.integers(1, max_rules))
    for t in used:
        n = draw(st.integers(0, left))
        left -= n
        rules += [draw(rule_item(w, t)) for _ in range(n)]
    sp = []
    if seps:
        for _ in range(draw(st.integers(0, 4))):
            sp.append({"if": draw(st.sampled_from(["floating"] + tags)), "row": draw(st.integers(0, 4)), "text": draw(desc()), "color": draw(st.sampled_from(["bg-info", "bg-danger", "bg-success"]))})
    return {
        "root": draw(st.sampled_from(["pfsense", "pfsense", "opnsense"])),
        "host": draw(gen.some(["fw", "fw-1", "pf"])),
        "domain": draw(gen.some(["example.com", "local"])),
        "ifs": ifs,
        "aliases": al,
        "rules": rules,
        "seps": sp,
        "order": draw(st.permutations(["system", "interfaces", "aliases", "filter", "revision", "unbound"])),
        "sep_tag": bool(sp) or draw(st.booleans()),
        "cdata": draw(st.booleans()),
        "prolog": draw(st.sampled_from(PROLOGS)),
        "flag": draw(st.sampled_from(["empty", "empty", "open", "1", "yes", "blank"])),
    }


# --- printing ----------------------------------------------------------------


def leaf(tag, value):
    return f"<{tag}/>" if value in (None, "") else f"<{tag}>{escape(value)}</{tag}>"


def flag(case, tag):
    """An element that says something by being there, whatever it holds."""
    how = case.get("flag", "empty")
    inner = {"empty": None, "open": "", "1": "1", "yes": "yes", "blank": "\n  "}[how]
    return f"<{tag}/>" if inner is None else f"<{tag}>{inner}</{tag}>"


def text_leaf(case, tag, value):
    v = html.escape(value)
    if case["cdata"] and "]]>" not in v:
        return f"<{tag}><![CDATA[{v}]]></{tag}>"
    return leaf(tag, v)


def p_member(m):
    if m[0] == "net":
        return f"{m[1]}/{m[2]}"
    if m[0] == "port":
        return m[2]
    if m[0] == "range":
        return f"{m[1]}:{m[2]}"
    return m[1]


def url_data(a):
    return a.get("eol", "\n").join(p_member(m) for m in a["ms"]) + "\n"


def p_alias(case, a):
    r = "<alias>" + leaf("name", a["n"]) + leaf("type", a["t"])
    if a["t"] == "urltable":
        r += leaf("url", "data:text/plain," + urllib.parse.quote(url_data(a))) + leaf("address", "")
    else:
        r += leaf("address", " ".join(p_member(m) for m in a["ms"]))
    return r + text_leaf(case, "descr", a["d"]) + leaf("detail", "x||y") + "</alias>"


def p_endpoint(case, tag, e):
    a, p = e["addr"], e["port"]
    r = {"any": lambda: flag(case, "any"), "ifnet": lambda: leaf("network", a[1]), "grp": lambda: leaf("address", a[1]), "net": lambda: leaf("address", f"{a[1]}/{a[2]}"), "host": lambda: leaf("address", a[1])}[a[0]]()
    if p:
        r += leaf("port", p[2] if p[0] == "port" else f"{p[1]}-{p[2]}" if p[0] == "range" else p[1])
    return f"<{tag}>{r}</{tag}>"


def p_rule(case, r):
    parts = [leaf("type", r["type"])]
    if r["if"] == "floating":
        parts += [leaf("floating", "yes"), leaf("interface", ",".join(r["fifs"])), leaf("direction", r["dir"])]
    else:
        parts += [leaf("interface", r["if"])]
    if r["proto"]:
        parts.append(leaf("protocol", r["proto"]))
    parts += [p_endpoint(case, "source", r["src"]), p_endpoint(case, "destination", r["dst"]), text_leaf(case, "descr", r["d"]), leaf("ipprotocol", "inet")]
    if r["tracker"]:
        parts.append(leaf("tracker", r["tracker"]))
    for f in ("log", "disabled"):
        if r[f]:
            parts.append(flag(case, f))
    if r["quick"]:
        parts.append(leaf("quick", "yes"))
    if r["state"]:
        parts.append(leaf("statetype", r["state"]))
    if r["icmp"]:
        parts.append(leaf("icmptype", r["icmp"]))
    for f in ("created", "updated"):
        if r[f]:
            parts.append(f"<{f}>" + leaf("time", str(r[f])) + leaf("username", "admin@10.1.1.1") + f"</{f}>")
    parts += [leaf(x, "1") for x in r["extra"]]
    if r["order"] == 1:
        parts.reverse()
    elif r["order"] == 2:
        parts = parts[3:] + parts[:3]
    return "<rule>" + "".join(parts) + "</rule>"


def p_iface(case, i):
    r = leaf("if", i["if"]) + "<enable/>"
    if i["d"] is not None:
        r += text_leaf(case, "descr", i["d"])
    if i["ip"] == "dhcp":
        r += leaf("ipaddr", "dhcp")
    elif i["ip"]:
        r += leaf("ipaddr", i["ip"][0]) + leaf("subnet", str(i["ip"][1]))
    return f"<{i['tag']}>{r}</{i['tag']}>"


def p_seps(case):
    r = ""
    by = {}
    for s in case["seps"]:
        by.setdefault("floatingrules" if s["if"] == "floating" else s["if"], []).append(s)
    for t, ss in by.items():
        r += f"<{t}>"
        for n, s in enumerate(ss):
            r += f"<sep{n}>" + leaf("row", f"fr{s['row']}") + text_leaf(case, "text", s["text"]) + leaf("color", s["color"]) + leaf("if", t) + f"</sep{n}>"
        r += f"</{t}>"
    return f"<separator>{r}</separator>"


def text(case):
    sec = {
        "system": "<system>" + leaf("hostname", case["host"]) + leaf("domain", case["domain"]) + "<timezone>UTC</timezone></system>",
        "interfaces": "<interfaces>" + "\n".join(p_iface(case, i) for i in case["ifs"]) + "</interfaces>",
        "aliases": "<aliases>" + "\n".join(p_alias(case, a) for a in case["aliases"]) + "</aliases>",
        "filter": "<filter>" + "\n".join(p_rule(case, r) for r in case["rules"]) + (p_seps(case) if case["sep_tag"] else "") + "</filter>",
        "revision": "<revision><time>1500000000</time><description>x</description></revision>",
        "unbound": "<unbound><rule>x</rule></unbound>",
    }
    return case.get("prolog", PROLOGS[0]).replace("ROOT", case["root"]) + f"<{case['root']}>\n<version>15.4</version>\n" + "\n".join(sec[k] for k in case["order"]) + f"\n</{case['root']}>"


# --- expectation -------------------------------------------------------------


def alias_of(case):
    m = {}
    for i in case["ifs"]:
        m[i["tag"]] = i["d"] if i["tag"].startswith("opt") and i["d"] else i["tag"]
    m["floating"] = "floating"
    return m


def atom(m):
    if m[0] in ("host", "net"):
        return ["set", *nm.atoms(m)[0]]
    if m[0] == "fqdn":
        return ["any"]
    return list(m)


def groups(case, fetch):
    net, port = {}, {}
    for a in case["aliases"]:
        if a["t"] == "port":
            port[a["n"]] = [a["d"].strip(), a["ms"]]
        elif a["t"] == "urltable":
            net[a["n"]] = [a["d"].strip(), [atom(m) for m in a["ms"] if m[0] != "junk"] if fetch else [["any"]]]
        else:
            net[a["n"]] = [a["d"].strip(), [atom(m) for m in a["ms"]]]
    return {"network": net, "port": port}


def specs(case):
    """alias name -> netmodel spec (urltable not fetched)."""
    out = {}
    for a in case["aliases"]:
        if a["t"] in ("host", "network"):
            out[a["n"]] = ["grp", a["n"], [["any"] if m[0] == "fqdn" else m for m in a["ms"]]]
        elif a["t"] == "urltable":
            out[a["n"]] = ["grp", a["n"], [["any"]]]
    return out


def interfaces(case):
    al = alias_of(case)
    return {
        al[i["tag"]]: {
            "desc": i["tag"] if i["tag"].startswith("opt") else (i["d"] or ""),
            "nameif": None if isinstance(i["ip"], list) else i["if"],
            "addrs": [str(ipaddress.ip_interface(f"{i['ip'][0]}/{i['ip'][1]}"))] if isinstance(i["ip"], list) else [],
        }
        for i in case["ifs"]
    }


def date(ts):
    return datetime.datetime.fromtimestamp(ts).strftime("%Y-%m-%d")


def rules(case):
    al = alias_of(case)
    out = []
    count = {}
    for r in case["rules"]:
        n = count.get(r["if"], 0)
        count[r["if"]] = n + 1
        heads = [[s["text"], s["color"]] for s in case["seps"] if s["if"] == r["if"] and s["row"] == n]
        opts = {"xref": r["tracker"] or -1}
        if r["if"] == "floating":
            opts["floating"] = ["interface", [al[i] for i in r["fifs"]], r["dir"]]
        if r["disabled"]:
            opts["inactive"] = ["inactive"]
        if r["log"]:
            opts["log"] = ["log", []]
        if r["state"] not in (None, "keep state"):
            opts["statetype"] = r["state"]
        e = {
            "id": al[r["if"]],
            "mode": "permit" if r["type"] == "pass" else "deny",
            "proto": ["proto", r["proto"] or "any"],
            "icmp": ["icmp", r["icmp"], None] if r["icmp"] else None,
            "opts": opts,
            "descr": r["d"],
            "dates": [date(r[f]) if r[f] else None for f in ("created", "updated")],
            "head": heads,
        }
        for side, p in (("src", "sport"), ("dst", "dport")):
            a = r[side]["addr"]
            e[side] = ["iface", al[a[1]]] if a[0] == "ifnet" else atom(a)
            e[p] = r[side]["port"]
        out.append(e)
    return out
