"""Turns acltk objects into plain JSON values, using their public attributes only."""
import datetime
import ipaddress
import re

from acltk import aclObjects as o
from acltk.fwsmObjects import Webtype

from vlib import netmodel as nm


def host(h):
    if isinstance(h, Webtype):
        return ["url", h.url]
    if isinstance(h, o.NetworkHost):
        return ["host", str(h.address), h.target.hostname if h.target else None]
    if isinstance(h, o.Network):
        return ["net", str(h.network.network_address), h.network.prefixlen, h.target.hostname if h.target else None]
    if isinstance(h, o.NetworkWildcard):
        return ["wild", str(h.address), str(h.wildcard)]
    if isinstance(h, o.NetworkObject):
        return ["obj", h.name]
    if isinstance(h, o.NetworkGroup):
        return ["grp", h.name]
    if isinstance(h, o.NetworkAny):
        return ["any"]
    if isinstance(h, o.NetworkAny4):
        return ["any4"]
    if isinstance(h, o.NetworkAny6):
        return ["any6"]
    if isinstance(h, o.NetworkInterface):
        return ["iface", h.name]
    return ["?", type(h).__name__, str(h)]


def host_spec(h):
    """Like host(), but a full vlib.netmodel spec (groups and objects opened)."""
    if isinstance(h, Webtype):
        return ["url", h.url]
    if isinstance(h, o.NetworkHost):
        return ["host", str(h.address)]
    if isinstance(h, o.Network):
        return ["net", str(h.network.network_address), h.network.prefixlen]
    if isinstance(h, o.NetworkObject):
        return ["grp", h.name, [host_spec(i) for i in h.addresses]]
    if isinstance(h, o.NetworkGroup):
        return ["grp", h.name, [host_spec(i) for i in h.objects]]
    return host(h)


def port(p):
    if p is None:
        return None
    if isinstance(p, o.PortRange):
        return ["range", str(p.start), str(p.stop)]
    if isinstance(p, o.PortGroup):
        return ["pgrp", p.name]
    if isinstance(p, o.ServiceGroup):
        return ["sgrp", p.name]
    if isinstance(p, o.Port):
        return ["port", p.op, p.num if p.num is None else str(p.num)]
    return ["?", type(p).__name__]


def proto(p):
    if p is None:
        return None
    if isinstance(p, o.ServiceObject):
        return ["sobj", p.name]
    if isinstance(p, o.Service):
        return ["svc", service(p)]
    if isinstance(p, o.ServiceGroup):
        return ["sgrp", p.name]
    if isinstance(p, o.ProtocolGroup):
        return ["prgrp", p.name]
    if isinstance(p, o.Protocol):
        return ["proto", str(p.name)]
    return ["?", type(p).__name__]


def service(s):
    r = {"p": str(s.protocol.name)}
    if s.src is not None:
        r["src"] = port(s.src)
    if s.dst is not None:
        r["dst"] = port(s.dst)
    if s.icmp_type is not None:
        r["type"] = s.icmp_type
    if s.icmp_code is not None:
        r["code"] = s.icmp_code
    return r


def icmp(i):
    if i is None:
        return None
    if isinstance(i, o.ICMPGroup):
        return ["igrp", i.name]
    if isinstance(i, o.ICMP):
        return ["icmp", i.type, i.code]
    return ["?", type(i).__name__]


def flat(x):
    if x is None:
        return []
    if isinstance(x, str):
        return [x]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [str(x)]


def words(x):
    """Strings of a nested option value, white space dropped."""
    return [w for w in (s.strip() for s in flat(x)) if w]


def options(opts):
    r = {}
    for k, v in (opts or {}).items():
        if isinstance(v, o.ACLRuleOptionLog):
            r[k] = ["log", words(v.options)]
        elif isinstance(v, o.ACLRuleOptionInActive):
            r[k] = ["inactive"]
        elif isinstance(v, o.TimeRange):
            r[k] = ["time", v.name]
        elif isinstance(v, o.ACLRuleOptionInterface):
            r[k] = ["interface", list(v.interfaces), v.direction]
        else:
            r[k] = v
    return r


def rule(r):
    return {
        "id": r.id,
        "mode": r.mode,
        "proto": proto(r.protocol),
        "src": host(r.src.host),
        "sport": port(r.src.port),
        "dst": host(r.dst.host),
        "dport": port(r.dst.port),
        "icmp": icmp(r.icmp),
        "opts": options(r.options),
        "remark": list(r.remark),
    }


def rules(c):
    return [rule(r) for r in c.rules.rules]


def when(t):
    return None if t is None else t.isoformat()


def timeitem(i):
    if isinstance(i, o.TimeRangeObjectAbsolute):
        return ["absolute", when(i.start), when(i.end)]
    return ["periodic", words(i.startDays), when(i.startTime), words(i.endDays), when(i.endTime)]


def member(m):
    if isinstance(m, (o.ServiceObject, o.ServiceGroup, o.ProtocolGroup, o.Protocol)):
        return proto(m)
    if isinstance(m, o.Service):
        return ["svc", service(m)]
    if isinstance(m, (o.Port, o.PortRange, o.PortGroup)):
        return port(m)
    if isinstance(m, (o.ICMP, o.ICMPGroup)):
        return icmp(m)
    return host(m)


def netobj(x):
    ats = nm.atoms(["grp", "", [host_spec(a) for a in x.addresses]])
    return {"desc": txt(x.description), "set": "all" if ("all",) in ats else nm.normal(ats)}


def iface(i):
    return {
        "nameif": i.nameif,
        "desc": txt(i.description),
        "addrs": sorted(str(a.interface) for a in i.addresses),
        "ag": sorted([str(k), v.name, v.direction] for k, v in i.access_groups.items()),
        "routes": sorted(f"{r.network} {r.gw}" for r in i.routes),
        "sw": None
        if i.switchport is None
        else [i.switchport.mode, None if i.switchport.trunk is None else [vlan(v) for v in i.switchport.trunk.items]],
    }


def vlan(v):
    if isinstance(v, o.VLANRange):
        return [str(v.start), str(v.end)]
    return [str(v.value)]


def definitions(c):
    g, ob = c.groups, c.objects
    return {
        "hostname": c.hostname,
        "domain": c.domainname,
        "names": [[n.hostname, str(n.address), txt(n.description)] for n in c.names.objects],
        "nobjs": {k: netobj(v) for k, v in ob.network.items()},
        "sobjs": {k: {"desc": txt(v.description), "svc": service(v)} for k, v in ob.service.items()},
        "times": {k: [timeitem(i) for i in v.objects] for k, v in ob.time.items()},
        "network": {k: [txt(v.description), [member(m) for m in v.objects]] for k, v in g.network.items()},
        "service": {k: [txt(v.description), [member(m) for m in v.objects]] for k, v in g.service.items()},
        "port": {
            k: [txt(v.description), str(v.protocol.name), [member(m) for m in v.objects]] for k, v in g.port.items()
        },
        "protocol": {k: [txt(v.description), [member(m) for m in v.objects]] for k, v in g.protocol.items()},
        "icmp": {k: [txt(v.description), [member(m) for m in v.objects]] for k, v in g.icmp.items()},
        "ifaces": {k: iface(v) for k, v in c.interfaces.items()},
    }


def reached(c):
    """What the access rules name, opened up: [kind, name] -> its content, through the rules' own references."""
    out = {}

    def go(x):
        d = None
        if isinstance(x, o.NetworkObject):
            d = ("nobjs", netobj(x), [])
        elif isinstance(x, o.NetworkGroup):
            d = ("network", [txt(x.description), [member(m) for m in x.objects]], x.objects)
        elif isinstance(x, o.ServiceObject):
            d = ("sobjs", {"desc": txt(x.description), "svc": service(x)}, [])
        elif isinstance(x, o.ServiceGroup):
            d = ("service", [txt(x.description), [member(m) for m in x.objects]], x.objects)
        elif isinstance(x, o.PortGroup):
            d = ("port", [txt(x.description), str(x.protocol.name), [member(m) for m in x.objects]], x.objects)
        elif isinstance(x, o.ProtocolGroup):
            d = ("protocol", [txt(x.description), [member(m) for m in x.objects]], x.objects)
        elif isinstance(x, o.ICMPGroup):
            d = ("icmp", [txt(x.description), [member(m) for m in x.objects]], x.objects)
        elif isinstance(x, o.TimeRange):
            d = ("times", [timeitem(i) for i in x.objects], [])
        if d is not None and [d[0], x.name, d[1]] not in out.get((d[0], x.name), []):
            out.setdefault((d[0], x.name), []).append([d[0], x.name, d[1]])
            for m in d[2]:
                go(m)

    for r in c.rules.rules:
        for x in (r.protocol, r.src.host, r.src.port, r.dst.host, r.dst.port, r.icmp, *(r.options or {}).values()):
            go(x)
    return {f"{k} {n}": [v[2] for v in vs] for (k, n), vs in out.items()}


def nat_service(s):
    """A NAT service: the service object it names, or protocol and port."""
    if s is None:
        return None
    if isinstance(s, o.ServiceObject):
        return ["sobj", s.name]
    ports = [p for p in (s.src, s.dst) if p is not None]
    return {"p": str(s.protocol.name), "port": [p if isinstance(p, str) else p.num for p in ports]}


def txt(s):
    """Free text, apart from white space around it."""
    return None if s is None else s.strip()


def nat(n):
    m = n.mapped
    fb = m.src.fallback if m.src else None
    return {
        "real": [n.real.iface.name, host(n.real.src.node) if n.real.src else None, host(n.real.dst.node) if n.real.dst else None],
        "mapped": [m.iface.name, host(m.src.node) if m.src else None, host(m.dst.node) if m.dst else None],
        "type": m.src.type if m.src else None,
        "fallback": None if not fb else [host(fb.interface) if not isinstance(fb.interface, str) else fb.interface, bool(fb.ipv6)],
        "real_service": nat_service(n.real.service),
        "mapped_service": nat_service(m.service),
        "opts": {k: v for k, v in n.options.items()},
        "desc": txt(n.description),
    }


def nats(c):
    return {str(k): [nat(n) for n in v] for k, v in c.nat.items()}


def everything(c):
    d = definitions(c)
    d["rules"] = rules(c)
    d["nat"] = nats(c)
    return d


# --- as address sets, whatever class carries them ---------------------------


def atom(h):
    s = host_spec(h)
    if s[0] in ("host", "net"):
        (v, lo, hi) = nm.atoms(s)[0]
        return ["set", v, lo, hi]
    if s[0] == "wild":
        a, w = nm.ip(s[1])[1], nm.ip(s[2])[1]
        if w & (w + 1) == 0:
            return ["set", 4, a & ~w & nm.MAX[4], (a | w) & nm.MAX[4]]
        return ["wild", a & ~w & nm.MAX[4], w]
    return host(h)


def ios_rules(c):
    out = []
    for r in c.rules.rules:
        d = rule(r)
        d["src"] = atom(r.src.host)
        d["dst"] = atom(r.dst.host)
        out.append(d)
    return out


def ios_groups(c):
    return {
        "network": {k: [txt(v.description), [atom(m) for m in v.objects]] for k, v in c.groups.network.items()},
        "service": {k: [txt(v.description), [member(m) for m in v.objects]] for k, v in c.groups.service.items()},
    }


def ios_iface(i):
    sw = i.switchport
    return {
        "desc": txt(i.description),
        "addrs": sorted(str(a.interface) for a in i.addresses),
        "ag": sorted([str(k), v.name, v.direction] for k, v in i.access_groups.items()),
        "sw": None if sw is None else sw.mode,
        "trunk": None if sw is None or sw.trunk is None else [vlan(v) for v in sw.trunk.items],
        "routes": sorted(route(r) for r in i.routes),
    }


def route(r):
    return [str(r.network), r.gw.alias if isinstance(r.gw, o.Interface) else str(r.gw)]


def ios_interfaces(c):
    return {
        "ifaces": {k: ios_iface(v) for k, v in c.interfaces.items()},
        "routes": [route(r) for r in c.routes],
        "binds": {k: sorted([b.iface.alias, b.direction] for b in v) for k, v in c.access_groups.items() if v},
    }


def pf_rules(c, want):
    """pfSense rules; dates only where `want` gives them."""
    out = []
    for n, r in enumerate(c.rules.rules):
        d = rule(r)
        d["src"], d["dst"] = atom(r.src.host), atom(r.dst.host)
        remark = d.pop("remark")
        d["descr"] = remark[0]
        m = re.fullmatch(r"c: (\S+) \(-?\d+ days\) / m: (\S+) \(-?\d+ days\)", remark[1]) if len(remark) == 2 else None
        d["dates"] = list(m.groups()) if m else remark[1:]
        if m and n < len(want):
            d["dates"] = [g if w else None for g, w in zip(d["dates"], want[n]["dates"])]
        d["head"] = [[h.text, h.bg] for h in r.head or []]
        out.append(d)
    return out


def pf_groups(c):
    return {
        "network": {k: [txt(v.description), [atom(m) for m in v.objects]] for k, v in c.groups.network.items()},
        "port": {k: [txt(v.description), [port(m) for m in v.objects]] for k, v in c.groups.port.items()},
    }


def pf_interfaces(c):
    return {
        k: {"desc": v.description, "nameif": v.nameif, "addrs": [str(a.interface) for a in v.addresses]}
        for k, v in c.interfaces.items()
    }


# --- everything of a configuration, whatever its format ------------------------


def snapshot(c):
    from acltk.iosObjects import iosConfig
    from acltk.pfsenseObjects import pfsenseConfig

    s = {"class": type(c).__name__, "name": [c.hostname, c.domainname], "version": getattr(c, "version", None)}
    if isinstance(c, iosConfig):
        s.update(rules=ios_rules(c), groups=ios_groups(c), ifaces=ios_interfaces(c))
    elif isinstance(c, pfsenseConfig):
        s.update(rules=pf_rules(c, []), groups=pf_groups(c), ifaces=pf_interfaces(c))
    else:
        s.update(everything(c))
    s["bound"] = {str(k): sorted(str(b.iface.alias) for b in v) for k, v in c.access_groups.items()}
    return s


def deep(x, f):
    """x with f applied to every string in it."""
    if isinstance(x, str):
        return f(x)
    if isinstance(x, dict):
        return {deep(k, f) if isinstance(k, str) else k: deep(v, f) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [deep(v, f) for v in x]
    return x
