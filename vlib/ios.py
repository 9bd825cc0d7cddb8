"""IOS configurations: generator, printer, expected parse result."""
import ipaddress

from hypothesis import strategies as st

from vlib import asa, gen
from vlib import netmodel as nm

PROTO_WORDS = [p for p in asa.PROTO_WORDS if p not in ("icmp", "icmp6")] + []
NAMES = ["Inside", "Inside_IPv6", "A", "A-1", "A-10", "acl.b", "acl-b", "a1", "B", "WEB", "x+y", "NAT", "remark", "101x", "eq", "vty-in", "any", "permit"]
ALIASES = ["Vlan1", "Vlan10", "Vlan100", "GigabitEthernet0/0", "GigabitEthernet0/1", "GigabitEthernet0/1.10", "Loopback0", "Tunnel1", "FastEthernet0", "Port-channel1", "Dialer0", "TenGigabitEthernet1/1/4", "Serial0/0/0:23", "Ethernet0", "Multilink7", "Virtual-Template1", "Port-channel48.4094"]
OPT_VALUES = ["af11", "ef", "cs1", "critical", "routine", "low-cost", "cookie_1", "WORK"]

SEQ = st.one_of(st.integers(1, 4000), st.integers(1, 4000), st.integers(1, 4294967294))


def nodup(opts):
    seen, r = set(), []
    for o in opts:
        if o[0] not in seen:
            seen.add(o[0])
            r.append(o)
    return r


@st.composite
def ext_options(draw, tcp=False):
    o = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        k = draw(st.sampled_from(["precedence", "dscp", "tos", "time-range", "fragments", "established"]))
        if k == "established" and not tcp:
            continue
        o.append([k, None if k in ("fragments", "established") else draw(st.sampled_from(OPT_VALUES))])
    if draw(st.integers(0, 2)) == 0:
        # a bare `log` takes the next word as its cookie, so it comes last
        o.append([draw(st.sampled_from(["log", "log-input"])), draw(st.sampled_from([None, None, "cookie_1", "TAG-2"]))])
    return nodup(o)


@st.composite
def ipv6_options(draw):
    o = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        k = draw(st.sampled_from(["dest-option-type", "dscp", "flow-label", "fragments", "log", "log-input", "mobility", "mobility-type", "routing", "routing-type", "time-range"]))
        if k in ("mobility-type", "routing-type"):
            v = str(draw(st.integers(0, 255)))
            if k == "routing-type" and draw(st.booleans()):
                v = None
        else:
            v = None if k in ("fragments", "log", "log-input", "mobility", "routing") else draw(st.sampled_from(OPT_VALUES))
        o.append([k, v])
    return nodup(o)


@st.composite
def ihost(draw, w, bare=False):
    """An address of an IPv4 access list (a bare one only in standard lists)."""
    k = draw(st.integers(0, 9))
    if k <= 1:
        return ["any"]
    if k <= 3:
        return ["host", draw(gen.v4)]
    if k <= 5:
        p = draw(gen.V4_PLENS)
        a = draw(gen.v4_int())
        if draw(st.booleans()):
            a = nm.prefix_bounds(4, a, p)[0]
        return ["wild", nm.fmt(4, a), nm.hostmask(p)]
    if k == 6 and w["ngrps"]:
        return ["grp", draw(st.sampled_from(w["ngrps"]))]
    if k == 7 and bare:
        return ["bare", draw(gen.v4)]
    return ["wild", draw(gen.v4), draw(gen.wildcard)]


@st.composite
def i6host(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return ["any"]
    if k == 1:
        return ["host", draw(gen.v6_text())]
    return ["net", draw(gen.v6_text()), draw(gen.V6_PLENS)]


@st.composite
def maybe_port(draw):
    if draw(st.integers(0, 2)):
        return None
    return draw(asa.port_spec())


@st.composite
def remarks(draw):
    if draw(st.integers(0, 2)):
        return []
    # a remark may be empty, too
    return draw(st.lists(st.one_of(gen.freetext(), gen.freetext(), gen.freetext(), st.sampled_from(["", "", "-", "remark", "permit ip any any"])), min_size=1, max_size=3))


@st.composite
def ext_entry(draw, w, numbered=False):
    e = {"mode": draw(st.sampled_from(["permit", "deny"])), "remark": draw(remarks()), "icmp": None, "sport": None, "dport": None}
    e["src"] = draw(ihost(w))
    e["dst"] = draw(ihost(w))
    k = draw(st.integers(0, 6))
    tcp = False
    if k == 0:
        e["proto"] = ["proto", "icmp"]
        if draw(st.booleans()):
            e["icmp"] = ["icmp", draw(asa.icmp_type()), draw(st.one_of(st.none(), st.integers(0, 255).map(str)))]
    elif k == 1:
        e["proto"] = ["proto", draw(st.one_of(st.sampled_from(PROTO_WORDS), st.integers(0, 255).map(str)))]
    elif k == 2 and w["sgrps"]:
        e["proto"] = ["sgrp", draw(st.sampled_from(w["sgrps"]))]
    elif k == 3:
        e["proto"] = ["proto", "ip"]
    else:
        tcp = draw(st.booleans())
        e["proto"] = ["proto", "tcp" if tcp else "udp"]
        e["sport"] = draw(maybe_port())
        e["dport"] = draw(maybe_port())
    e["opts"] = draw(ext_options(tcp))
    e["seq"] = draw(st.one_of(st.none(), SEQ))
    return e


@st.composite
def std_entry(draw, w, numbered=False):
    return {
        "mode": draw(st.sampled_from(["permit", "deny"])),
        "remark": draw(remarks()),
        "src": draw(ihost(w, True)),
        "opts": draw(st.sampled_from([[], [], [["log", None]], [["log", "cookie_1"]]])),
        "seq": draw(st.one_of(st.none(), SEQ)),
    }


@st.composite
def v6_entry(draw, seq):
    e = {"mode": draw(st.sampled_from(["permit", "deny"])), "remark": [], "icmp": None, "sport": None, "dport": None, "seq": seq}
    e["src"] = draw(i6host())
    e["dst"] = draw(i6host())
    k = draw(st.integers(0, 4))
    if k == 0:
        e["proto"] = ["proto", "icmp"]
        e["opts"] = nodup([[draw(st.sampled_from(["nd-ns", "nd-na", "echo-request", "echo-reply", "router-solicitation", "router-advertisement", "redirect", "packet-too-big"])), None]]) if draw(st.booleans()) else []
    else:
        if k == 1:
            e["proto"] = ["proto", draw(st.sampled_from(["ipv6", "ah", "esp", "41", "89", "pcp"]))]
        else:
            e["proto"] = ["proto", draw(st.sampled_from(["tcp", "udp"]))]
            e["sport"] = draw(maybe_port())
            e["dport"] = draw(maybe_port())
        e["opts"] = draw(ipv6_options())
    return e


@st.composite
def ngrp_item(draw, n, w):
    ms = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 4))
        if k == 0 and w["ngrps"]:
            ms.append(["grp", draw(st.sampled_from(w["ngrps"]))])
        else:
            ms.append((draw(gen.host(False)) if k % 2 else draw(gen.net(False))) + [None])
    w["ngrps"].append(n)
    return {"k": "ngrp", "n": n, "d": draw(st.one_of(st.none(), gen.freetext())), "ms": ms}


@st.composite
def sgrp_item(draw, n, w):
    ms = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 4)) == 0 and w["sgrps"]:
            ms.append(["sgrp", draw(st.sampled_from(w["sgrps"]))])
        else:
            ms.append(["svc", draw(asa.service_spec(group=True))])
    w["sgrps"].append(n)
    return {"k": "sgrp", "n": n, "d": draw(st.one_of(st.none(), gen.freetext())), "ms": ms}


@st.composite
def vlans(draw):
    r = []
    for _ in range(draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 40)))):
        a = draw(st.integers(1, 4093))
        r.append([str(a)] if draw(st.booleans()) else [str(a), str(draw(st.integers(a + 1, 4094)))])
    return r


@st.composite
def iface_item(draw, alias, acls, pool):
    d = []
    if draw(st.booleans()):
        d.append(["desc", draw(gen.freetext())])
    d.append(["noise", draw(st.sampled_from(["no ip redirects", "duplex auto", "mtu 1500", "shutdown", "ip mtu 1400", "ip helper-address 10.1.1.1", "switchport access vlan 10", "service-policy input description"]))])
    for i in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        if pool and draw(st.integers(0, 2)) == 0:
            # in the network of an earlier address, at the same or another prefix length
            a, p = draw(st.sampled_from(pool))
            lo, hi = nm.prefix_bounds(4, nm.ip(a)[1], p)
            a = nm.fmt(4, draw(st.sampled_from([lo, hi, min(lo + 1, hi), min(lo + 2, hi)])))
            p = draw(st.one_of(st.just(p), st.integers(8, 32)))
        else:
            a, p = draw(gen.v4), draw(st.one_of(st.integers(8, 32), st.integers(1, 32)))
        pool.append((a, p))
        d.append(["ip", a, p, i > 0])
    for _ in range(draw(st.integers(0, 2))):
        ll = draw(st.integers(0, 3)) == 0
        d.append(["ipv6", draw(gen.v6_text()), None if ll else draw(st.integers(1, 128))])
    if acls:
        for dr in draw(st.sampled_from([[], ["in"], ["out"], ["in", "out"]])):
            d.append(["ag", "ip", draw(st.sampled_from(acls)), dr])
        for dr in draw(st.sampled_from([[], [], ["in"], ["out", "in"]])):
            d.append(["ag", "ipv6", draw(st.sampled_from(acls)), dr])
    if draw(st.integers(0, 2)) == 0:
        sw = [["mode", draw(st.sampled_from(["trunk", "access"]))]] if draw(st.booleans()) else []
        if draw(st.booleans()):
            sw.append(["set", draw(vlans())])
            for _ in range(draw(st.integers(0, 2))):
                sw.append(["add", draw(vlans())])
        d += [["sw"] + s for s in sw]
    d = draw(shuffled(d))
    return {"k": "iface", "alias": alias, "d": d}


@st.composite
def shuffled(draw, d):
    """Any order, except that trunk VLAN lists keep theirs."""
    def vlan(x):
        return x[0] == "sw" and x[1] != "mode"

    idx = draw(st.permutations(range(len(d))))
    r = [d[i] for i in idx]
    sw = iter([x for x in d if vlan(x)])
    return [next(sw) if vlan(x) else x for x in r]


@st.composite
def route_item(draw, ifaces):
    p = draw(gen.V4_PLENS)
    a = nm.prefix_bounds(4, draw(gen.v4_int()), p)[0]
    conn = [x for i in ifaces for x in i["d"] if x[0] == "ip"]
    k = draw(st.integers(0, 3))
    r = {"k": "route", "net": [nm.fmt(4, a), p]}
    rest = draw(st.sampled_from(["", "", "", " 200", " name upstream", " permanent", " 5 name a-b tag 7", " track 1"]))
    if rest:
        r["rest"] = rest
    if k == 0 and ifaces:
        if rest and draw(st.booleans()):
            r["rest"] = " " + draw(gen.v4) + rest
        return {**r, "gw": ["if", draw(st.sampled_from(ifaces))["alias"]]}
    if k <= 2 and conn:
        x = draw(st.sampled_from(conn))
        lo, hi = nm.prefix_bounds(4, nm.ip(x[1])[1], x[2])
        g = draw(st.sampled_from([lo, hi, min(lo + 1, hi), min(hi + 1, nm.MAX[4]), max(lo - 1, 0)]))
        return {**r, "gw": ["ip", nm.fmt(4, g)]}
    return {**r, "gw": ["ip", draw(gen.v4)]}


@st.composite
def config(draw, acls=(1, 4), max_defs=5, n_ifaces=(0, 2), routes=3, max_entries=5):
    w = {"ngrps": [], "sgrps": []}
    items = []
    if draw(st.booleans()):
        items.append({"k": "version", "v": draw(st.sampled_from(["12.4", "15.1", "12.2(33)SXI"]))})
    if draw(st.booleans()):
        items.append({"k": "hostname", "v": draw(gen.some(["rt", "rt-1", "Edge.A", "host_9"]))})
    if draw(st.booleans()):
        items.append({"k": "domain", "v": draw(gen.some(["example.com", "local", "a-b.c"]))})
    for n in draw(gen.names(max_size=max_defs)):
        items.append(draw(ngrp_item(n, w) if draw(st.integers(0, 2)) else sgrp_item(n, w)))
    if max_defs and draw(st.integers(0, 5)) == 0:
        k, tag = draw(st.sampled_from([("ngrp", "grp"), ("ngrp", "grp"), ("sgrp", "sgrp")]))
        depth = draw(st.integers(3, 6))
        for i in range(depth):
            own = [draw(gen.host(False)) + [None] if k == "ngrp" else ["svc", draw(asa.service_spec(group=True))] for _ in range(draw(st.integers(0 if i else 1, 2)))]
            own[len(own) // 2 : len(own) // 2] = [[tag, f"nest{i - 1}"]] if i else []
            items.append({"k": k, "n": f"nest{i}", "d": None, "ms": own})
        w[k + "s"] += [f"nest{depth - 1}"] * 3 + ["nest1"]
    names = draw(st.lists(gen.some(NAMES), min_size=acls[0], max_size=acls[1], unique=True))
    lists = []
    for n in names:
        t = draw(st.sampled_from(["standard", "extended", "extended", "ipv6", "numbered"]))
        if t == "numbered":
            for _ in range(draw(st.integers(1, 3))):
                if draw(st.booleans()):
                    lists.append({"k": "nacl", "t": "standard", "n": draw(gen.some(["1", "10", "99", "1300", "1399", "1400", "1999"], st.one_of(st.integers(1, 99), st.integers(1300, 1999)).map(str), 3)), "e": draw(std_entry(w))})
                else:
                    lists.append({"k": "nacl", "t": "extended", "n": draw(gen.some(["100", "101", "199", "2000", "2699"], st.one_of(st.integers(100, 199), st.integers(2000, 2699)).map(str), 3)), "e": draw(ext_entry(w, True))})
                if draw(st.integers(0, 7)) == 0:
                    lists.append({"k": "nrem", "n": lists[-1]["n"], "r": draw(st.lists(gen.freetext(), min_size=1, max_size=2))})
            continue
        if t == "ipv6":
            step = draw(st.sampled_from([10, 10, 1, 97, 2000000]))
            es = [draw(v6_entry(step * (i + 1))) for i in range(draw(st.integers(1, max_entries)))]
        else:
            es = [draw(std_entry(w) if t == "standard" else ext_entry(w)) for _ in range(draw(st.integers(0, max_entries)))]
        again = [x["n"] for x in lists if x["k"] == "acl" and x["t"] == t]
        if again and draw(st.integers(0, 4)) == 0:
            # more entries of a list written before
            n = draw(st.sampled_from(again))
        lists.append({"k": "acl", "t": t, "n": n, "es": es})
        if t != "ipv6" and draw(st.integers(0, 5)) == 0:
            lists[-1]["trail"] = draw(st.lists(gen.freetext(), min_size=1, max_size=2))
    ifs, pool = [], []
    for al in draw(st.permutations(ALIASES))[: draw(st.integers(*n_ifaces))]:
        ifs.append(draw(iface_item(al, names + ["101"], pool)))
    rts = [draw(route_item(ifs)) for _ in range(draw(st.integers(0, routes)))]
    items += ifs + lists + rts if draw(st.booleans()) else ifs + rts + lists
    sep = draw(st.booleans())
    return {"items": items, "sep": sep}


# --- printing ----------------------------------------------------------------


def p_host(h):
    k = h[0]
    if k == "any":
        return "any"
    if k == "host":
        return "host " + h[1]
    if k == "bare":
        return h[1]
    if k == "wild":
        return f"{h[1]} {h[2]}"
    if k == "net":
        return f"{h[1]}/{h[2]}"
    return f"object-group {h[1]}"


def p_opts(o):
    return "".join(f" {k}" + (f" {v}" if v else "") for k, v in o)


def p_ext(e):
    s = e["mode"] + " " + ("object-group " if e["proto"][0] != "proto" else "") + e["proto"][1]
    s += " " + p_host(e["src"]) + (" " + asa.p_port(e["sport"]) if e["sport"] else "")
    s += " " + p_host(e["dst"]) + (" " + asa.p_port(e["dport"]) if e["dport"] else "")
    if e["icmp"]:
        s += f" {e['icmp'][1]}" + (f" {e['icmp'][2]}" if e["icmp"][2] is not None else "")
    return s + p_opts(e["opts"])


def p_entry(t, e):
    if t == "standard":
        return e["mode"] + " " + p_host(e["src"]) + p_opts(e["opts"])
    return p_ext(e)


def p_seq(e):
    return "" if e.get("seq") is None else f"{e['seq']} "


def p_vlans(v):
    return ",".join("-".join(x) for x in v)


def lines(it):
    k = it["k"]
    if k == "version":
        return ["version " + it["v"]]
    if k == "hostname":
        return ["hostname " + it["v"]]
    if k == "domain":
        return ["ip domain name " + it["v"]]
    if k == "ngrp":
        r = [f"object-group network {it['n']}"] + ([f" description {it['d']}"] if it["d"] else [])
        for m in it["ms"]:
            if m[0] == "grp":
                r.append(f" group-object {m[1]}")
            elif m[0] == "host":
                r.append(f" host {m[1]}")
            else:
                r.append(f" {m[1]} {nm.netmask(m[2])}")
        return r
    if k == "sgrp":
        r = [f"object-group service {it['n']}"] + ([f" description {it['d']}"] if it["d"] else [])
        return r + [f" group-object {m[1]}" if m[0] == "sgrp" else " " + asa.p_service(m[1]) for m in it["ms"]]
    if k == "iface":
        r = [f"interface {it['alias']}"]
        for d in it["d"]:
            r.append(
                {
                    "desc": lambda: f" description {d[1]}",
                    "noise": lambda: " " + d[1],
                    "ip": lambda: f" ip address {d[1]} {nm.netmask(d[2])}" + (" secondary" if d[3] else ""),
                    "ipv6": lambda: f" ipv6 address {d[1]}" + (" link-local" if d[2] is None else f"/{d[2]}"),
                    "ag": lambda: f" {d[1]} {'access-group' if d[1] == 'ip' else 'traffic-filter'} {d[2]} {d[3]}",
                    "sw": lambda: f" switchport mode {d[2]}"
                    if d[1] == "mode"
                    else " switchport trunk allowed vlan " + ("add " if d[1] == "add" else "") + p_vlans(d[2]),
                }[d[0]]()
            )
        return r
    if k == "acl":
        if it["t"] == "ipv6":
            return [f"ipv6 access-list {it['n']}"] + [f" sequence {e['seq']} " + p_ext(e) for e in it["es"]]
        r = [f"ip access-list {it['t']} {it['n']}"]
        for e in it["es"]:
            r += [f" {p_seq(e)}remark {x}" for x in e["remark"]]
            r.append(" " + p_seq(e) + p_entry(it["t"], e))
        return r + [f" remark {x}" for x in it.get("trail", [])]
    if k == "nrem":
        return [f"access-list {it['n']} remark {x}" for x in it["r"]] + ["!"]  # ends the remarks: they belong to no rule
    if k == "nacl":
        return [f"access-list {it['n']} remark {x}" for x in it["e"]["remark"]] + [
            f"access-list {it['n']} " + p_entry(it["t"], it["e"])
        ]
    if k == "route":
        return [f"ip route {it['net'][0]} {nm.netmask(it['net'][1])} {it['gw'][1]}{it.get('rest', '')}"]
    if k == "raw":
        return list(it["lines"])
    raise AssertionError(k)


def text(case, eol="\n"):
    out = []
    for it in case["items"]:
        out += lines(it)
        if case.get("sep"):
            out.append("!")
    return eol.join(out) + eol


# --- expectation -------------------------------------------------------------


def contiguous(w):
    w = nm.ip(w)[1]
    return w & (w + 1) == 0


def atom(h):
    """Canonical address set of a plain address."""
    k = h[0]
    if k in ("host", "bare"):
        v, a = nm.ip(h[1])
        return ["set", v, a, a]
    if k == "net":
        v, a = nm.ip(h[1])
        return ["set", v, *nm.prefix_bounds(v, a, h[2])]
    if k == "wild":
        a, w = nm.ip(h[1])[1], nm.ip(h[2])[1]
        if w & (w + 1) == 0:
            return ["set", 4, a & ~w & nm.MAX[4], (a | w) & nm.MAX[4]]
        return ["wild", a & ~w & nm.MAX[4], w]
    return list(h)


def to_spec(h, sp):
    if h[0] == "grp":
        return sp[("grp", h[1])]
    if h[0] == "bare":
        return ["host", h[1]]
    return list(h[:3])


def specs(case):
    sp = {}
    for it in case["items"]:
        if it["k"] == "ngrp":
            sp[("grp", it["n"])] = ["grp", it["n"], [to_spec(m, sp) for m in it["ms"]]]
    return sp


def e_rule(n, t, e):
    opts = {k: v for k, v in e["opts"]}
    if t == "ipv6":
        opts["sequence"] = str(e["seq"])
    return {
        "id": n,
        "mode": e["mode"],
        "proto": e.get("proto") or ["proto", "ip"],
        "src": atom(e["src"]),
        "dst": atom(e["dst"]) if "dst" in e else ["any"],
        "sport": e.get("sport"),
        "dport": e.get("dport"),
        "icmp": e.get("icmp"),
        "opts": opts,
        "remark": e["remark"],
    }


def raw_rules(case):
    """(acl name, type, entry) in order."""
    out = []
    for it in case["items"]:
        if it["k"] == "acl":
            out += [(it["n"], it["t"], e) for e in it["es"]]
        elif it["k"] == "nacl":
            out.append((it["n"], it["t"], it["e"]))
    return out


def rules(case):
    return [e_rule(*x) for x in raw_rules(case)]


def e_iface(it):
    r = {"desc": None, "addrs": [], "ag": [], "sw": None, "trunk": None}
    for d in it["d"]:
        if d[0] == "desc":
            r["desc"] = d[1]
        elif d[0] == "ip":
            r["addrs"].append(str(ipaddress.ip_interface(f"{d[1]}/{d[2]}")))
        elif d[0] == "ipv6":
            r["addrs"].append(str(ipaddress.ip_interface(f"{d[1]}/{128 if d[2] is None else d[2]}")))
        elif d[0] == "ag":
            r["ag"].append([f"{d[1]}-{d[3]}", d[2], d[3]])
        elif d[0] == "sw":
            r["sw"] = r["sw"] or ""
            if d[1] == "mode":
                r["sw"] = d[2]
            elif d[1] == "set":
                r["trunk"] = list(d[2])
            else:
                r["trunk"] = r["trunk"] + d[2]
    r["addrs"].sort()
    r["ag"].sort()
    return r


def interfaces(case):
    out = {it["alias"]: e_iface(it) for it in case["items"] if it["k"] == "iface"}
    for r in out.values():
        r["routes"] = []
    routes = []
    binds = {}
    for it in case["items"]:
        if it["k"] == "route":
            net = f"{it['net'][0]}/{it['net'][1]}"
            rt = [net, it["gw"][1]]
            routes.append(rt)
            if it["gw"][0] == "if":
                out[it["gw"][1]]["routes"].append(rt)
            else:
                for r in out.values():
                    if any(ipaddress.ip_address(it["gw"][1]) in ipaddress.ip_interface(a).network for a in r["addrs"]):
                        r["routes"].append(rt)
        if it["k"] == "iface":
            for d in it["d"]:
                if d[0] == "ag":
                    binds.setdefault(d[2], []).append([it["alias"], d[3]])
    for r in out.values():
        r["routes"].sort()
    return {"ifaces": out, "routes": routes, "binds": {k: sorted(v) for k, v in binds.items()}}


def header(case):
    h = {"hostname": "", "domain": ""}
    for it in case["items"]:
        if it["k"] in h:
            h[it["k"]] = it["v"]
    return h


def groups(case):
    d = {"network": {}, "service": {}}
    for it in case["items"]:
        if it["k"] == "ngrp":
            d["network"][it["n"]] = [it["d"], [atom(m) if m[0] != "grp" else list(m) for m in it["ms"]]]
        elif it["k"] == "sgrp":
            d["service"][it["n"]] = [it["d"], it["ms"]]
    return d
