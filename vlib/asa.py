"""ASA/FWSM configurations: generator (a list of JSON items), printer, and the
expected parse result computed from the items alone."""
import calendar
import ipaddress
import re

from hypothesis import strategies as st

from vlib import gen
from vlib import netmodel as nm

PORT_WORDS = (
    "xdmcp www whois who uucp time tftp telnet talk tacacs syslog sunrpc ssh sqlnet snmptrap snmp smtp sip "
    "secureid-udp rtsp rsh rpc rip radius-acct radius pptp pop3 pop2 pim-auto-rp pcanywhere-status pcanywhere-data "
    "ntp non500-isakmp nntp nfs netbios-ssn netbios-ss netbios-ns netbios-dgm nameserver mobile-ip lpd lotusnotes "
    "login ldaps ldap kshell klogin kerberos isakmp irc imap4 ident https http hostname h323 gopher ftp-data ftp "
    "finger exec echo domain dnsix discard daytime ctiqbe cmd citrix-ica chargen bootps bootpc biff bgp aol"
).split()
ICMP_WORDS = (
    "unreachable ttl-exceeded traceroute timestamp-request timestamp-reply time-exceeded source-route-failed "
    "source-quench router-solicitation router-renumbering router-advertisement redirect reassembly-timeout "
    "protocol-unreachable precedence-unreachable port-unreachable parameter-problem packet-too-big option-missing "
    "no-room-for-option network-unknown net-unreachable net-tos-unreachable net-tos-redirect net-redirect "
    "neighbor-solicitation neighbor-redirect neighbor-advertisement mobile-redirect membership-report "
    "membership-reduction membership-query mask-request mask-reply information-request information-reply "
    "host-unreachable host-unknown host-tos-unreachable host-tos-redirect host-redirect host-precedence-unreachable "
    "host-isolated general-parameter-problem echo-request echo-reply echo dod-net-prohibited dod-host-prohibited "
    "destination-unreachable conversion-error alternate-address administratively-prohibited address-mask-request "
    "address-mask-reply"
).split()
PROTO_WORDS = (
    "udp tcp snp pptp pim pcp ospf nos ipsec ipinip ip ipv6 igrp igmp icmp6 icmp gre esp eigrp ahp ah"
).split()
LOG_LEVELS = "debugging disable default notifications warnings critical 0 1 2 3 4 5 6 7".split()
DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
MONTHS = "January February March April May June July August September October November December".split()

OPS = ["eq", "gt", "lt", "neq"]


@st.composite
def port_value(draw):
    if draw(st.booleans()):
        return draw(st.sampled_from(PORT_WORDS))
    return str(draw(gen.PORT_NUMS))


@st.composite
def port_spec(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return ["range"] + draw(gen.port_range())
    if k == 1:
        return ["range", draw(st.sampled_from(PORT_WORDS)), draw(port_value())]
    return ["port", draw(st.sampled_from(OPS)), draw(port_value())]


@st.composite
def service_spec(draw, group=False):
    """The right-hand side of `service` / `service-object`."""
    k = draw(st.integers(0, 5))
    if k == 0:
        r = {"p": draw(st.sampled_from(["icmp", "icmp6"]))}
        if draw(st.integers(0, 2)):
            r["type"] = draw(icmp_type())
            if draw(st.integers(0, 2)):
                r["code"] = str(draw(st.integers(0, 255)))
        return r
    if k == 1:
        if group and draw(st.booleans()):
            return {"p": draw(st.sampled_from([p for p in PROTO_WORDS if p not in ("icmp", "icmp6", "tcp", "udp")]))}
        return {"p": str(draw(st.integers(0, 255)))}
    r = {"p": draw(st.sampled_from(["tcp", "udp", "tcp", "udp", "tcp-udp"]))}
    side = draw(st.integers(0, 3))
    if side & 1:
        r["dst"] = draw(port_spec())
    if side & 2:
        r["src"] = draw(port_spec())
    return r


@st.composite
def icmp_type(draw):
    if draw(st.booleans()):
        return draw(st.sampled_from(ICMP_WORDS))
    return str(draw(st.one_of(st.integers(0, 255), st.sampled_from([0, 8, 255, 3]))))


@st.composite
def clock(draw):
    return [draw(st.integers(0, 23)), draw(st.integers(0, 59))]


@st.composite
def timedate(draw):
    h, m = draw(clock())
    month, year = draw(st.integers(1, 12)), draw(st.one_of(st.one_of(st.integers(1993, 2035), st.integers(1993, 2035), st.integers(1970, 2135)), st.sampled_from([1996, 2000, 2024])))
    last = calendar.monthrange(year, month)[1]
    return [h, m, draw(st.one_of(st.integers(1, last), st.sampled_from([1, last]))), month, year]


@st.composite
def time_item(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return ["absolute", draw(timedate()), draw(timedate())]
    if k == 1:
        return ["absolute", draw(timedate()), None] if draw(st.booleans()) else ["absolute", None, draw(timedate())]
    if k == 2:
        return ["periodic", draw(st.sampled_from(["weekdays", "weekend", "daily"])), draw(clock()), None, draw(clock())]
    first = draw(st.sampled_from(DAYS))
    return [
        "periodic",
        first,
        draw(clock()),
        draw(st.one_of(st.none(), st.just(first), st.sampled_from(DAYS))),
        draw(clock()),
    ]


def ident_ok(n):
    return n[0].isalpha() or n[0] == "_"


IFACE_ALIASES = ["Ethernet0/0", "Ethernet0/1", "Ethernet0/1.10", "GigabitEthernet0/0", "Vlan10", "Vlan1", "Management0/0", "Port-channel1.100", "TenGigabitEthernet1/0/47", "Redundant8", "BVI1", "Loopback2147483647", "Tunnel0", "GigabitEthernet0/0.4094", "Ethernet3"]
NAMEIFS = ["inside", "outside", "dmz", "dmz-1", "dmz-10", "in", "out", "mgmt", "inside2"]


@st.composite
def netobj_spec(draw, fqdn=True):
    k = draw(st.integers(0, 7 if fqdn else 6))
    if k <= 2:
        return draw(gen.host())
    if k <= 4:
        return draw(gen.net())
    if k <= 6:
        return draw(gen.addr_range())
    return ["fqdn", draw(st.sampled_from([None, "v4", "v6"])), draw(st.sampled_from(["www.example.com", "a.b", "x-1.example.org", "a.very.long.name.of-some-host.in.a-department.of.the.company.example.com"]))]


class World:
    """What has been defined so far while a configuration is being drawn."""

    def __init__(self):
        self.names4, self.names6 = {}, {}
        self.nobjs, self.sobjs, self.ngrps, self.sgrps = [], [], [], []
        self.tgrps, self.igrps, self.pgrps, self.times = [], [], [], []
        self.nameifs = []
        self.aliases = {}
        self.nat_svc = None
        self.named = False  # names in place of most addresses
        self.specs = {}  # ("obj"|"grp", name) -> netmodel spec


@st.composite
def config(
    draw,
    max_rules=8,
    max_defs=8,
    fqdn=True,
    kinds=("extended", "standard", "webtype"),
    use_names=True,
    v6ok=True,
    host_ifaces=True,
    nat=0,
    min_rules=1,
    services=True,
    acl_ids=None,
    remarks=True,
    ifaces=True,
    times=True,
    nat_svc=False,
    chains=True,
    defkinds=None,
):
    w = World()
    items = []
    if draw(st.booleans()):
        items.append({"k": "version", "v": draw(st.sampled_from(["ASA Version 9.1(2)", "FWSM Version 4.1(5) <context>", "ASA Version 8.4(7)"]))})
    if draw(st.booleans()):
        items.append({"k": "hostname", "v": draw(gen.some(["fw", "fw-1", "Edge.A", "host_9"]))})
    if draw(st.booleans()):
        items.append({"k": "domain", "v": draw(gen.some(["example.com", "local", "a-b.c"]))})
    pool = draw(gen.names(min_size=3, max_size=max_defs + 3))
    npool = iter(pool)

    w.named = draw(st.integers(0, 4)) == 0
    if use_names:
        for n in draw(st.lists(gen.name().filter(ident_ok), max_size=4, unique=True)):
            if v6ok and draw(st.integers(0, 3)) == 0:
                # two names for one address, now and then
                a = draw(st.sampled_from(sorted(w.names6.values()))) if w.names6 and draw(st.booleans()) else draw(gen.v6)
                w.names6[n] = a
            else:
                a = draw(st.sampled_from(sorted(w.names4.values()))) if w.names4 and draw(st.integers(0, 2)) == 0 else draw(gen.v4)
                w.names4[n] = a
            items.append({"k": "name", "n": n, "a": a, "d": draw(st.one_of(st.none(), gen.freetext()))})
    if ifaces or nat:
        n_if = draw(st.integers(2 if nat else 0, 3))
        for al, ni in zip(draw(st.permutations(IFACE_ALIASES))[:n_if], draw(st.lists(gen.some(NAMEIFS), min_size=n_if, max_size=n_if, unique=True))):
            w.nameifs.append(ni)
            w.aliases[ni] = al
            items.append(draw(iface_item(al, ni)))
        if nat and draw(st.integers(0, 5)) == 0:
            # no nameif
            w.aliases["Null0"] = "Null0"
            items.append(draw(iface_item("Null0", None)))
    if times:
        for n in draw(st.lists(gen.some(["t1", "t10", "T-1", "work", "work-2", "wo"]), max_size=2, unique=True)):
            w.times.append(n)
            items.append({"k": "time", "n": n, "items": draw(st.lists(time_item(), min_size=1, max_size=3))})

    if draw(st.booleans()):
        dkinds = st.sampled_from(["nobj", "ngrp", "ngrp", "sobj", "sgrp", "tgrp", "igrp", "pgrp"])
    else:
        dkinds = st.sampled_from(["nobj", "nobj", "ngrp", "ngrp", "ngrp"])
    if not services:
        dkinds = st.sampled_from(["nobj", "nobj", "ngrp", "ngrp"])
    if defkinds:
        dkinds = st.sampled_from(defkinds)
    for dk in draw(st.lists(dkinds, min_size=(2 if nat else max_defs // 2 if defkinds else 0), max_size=max_defs)):
        n = next(npool, None)
        if n is None:
            break
        items.append(draw(definition(dk, n, w, fqdn, v6ok, use_names)))
    if chains and draw(st.integers(0, 5)) == 0:
        items += draw(group_chain(w, services, v6ok))

    if nat_svc:
        w.nat_svc = {"src": [], "dst": []}
        for side in ("src", "dst"):
            for i in range(2):
                n = f"svc-{side}-{i}"
                p = draw(st.sampled_from(["eq", "eq", "range"]))
                items.append({"k": "sobj", "n": n, "d": None, "svc": {"p": draw(st.sampled_from(["tcp", "udp"])), side: ["range"] + draw(gen.port_range()) if p == "range" else ["port", "eq", draw(port_value())]}})
                w.nat_svc[side].append(n)
    ids = acl_ids or draw(st.lists(gen.some(["inside_in", "outside_in", "A", "A-1", "acl.b", "acl-b", "a1", "B", "extended", "101", "x+y", "in", "out", "in-2", "global", "interface"]), min_size=1, max_size=3, unique=True))
    n_rules = draw(st.integers(min_rules, max_rules))
    cur = draw(st.sampled_from(ids))
    for _ in range(n_rules):
        if draw(st.integers(0, 2)) == 0:
            cur = draw(st.sampled_from(ids))
        items.append(draw(rule_item(cur, w, kinds, v6ok, host_ifaces, remarks)))
        if draw(st.integers(0, 7)) == 0 and pool:
            n = next(npool, None)
            if n is not None:
                items.append(draw(definition(draw(dkinds), n, w, fqdn, v6ok, use_names)))
    used = set()
    for ni in w.nameifs:
        if draw(st.booleans()):
            for dr in draw(st.sampled_from([["in"], ["out"], ["in", "out"], ["out", "in"]])):
                items.append({"k": "ag", "acl": draw(st.sampled_from(ids)), "dir": dr, "if": ni})
            used.add(ni)
    if draw(st.integers(0, 5)) == 0:
        items.append({"k": "agg", "acl": draw(st.sampled_from(ids))})
    if nat:
        for _ in range(draw(st.integers(1, nat))):
            it = draw(nat_item(w))
            if it is not None:
                items.append(it)
    return {"items": items, "spell": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6]))}


@st.composite
def iface_item(draw, alias, nameif):
    it = {"k": "iface", "alias": alias, "nameif": nameif, "desc": None, "addrs": [], "extra": []}
    if draw(st.booleans()):
        it["desc"] = draw(gen.freetext())
    if draw(st.booleans()):
        p = draw(st.one_of(st.integers(8, 30), st.integers(1, 32)))
        it["addrs"].append(["4", draw(gen.v4), p, draw(st.one_of(st.none(), gen.v4))])
    if draw(st.integers(0, 2)) == 0:
        it["addrs"].append(["6", draw(gen.v6), draw(st.integers(1, 128)), draw(st.one_of(st.none(), gen.v6))])
    it["extra"] = draw(st.lists(st.sampled_from(["security-level 100", "no shutdown", "shutdown", "vlan 10", "no ip address", "speed 1000", "ospf cost 10"]), max_size=2))
    return it


@st.composite
def nhost(draw, w, v6ok=True, named=True):
    """A network-object / plain address: spec plus how it is written."""
    k = draw(st.integers(0, 3 if w.named else 9))
    if named and k == 0 and w.names4:
        n = draw(st.sampled_from(sorted(w.names4)))
        return ["host", w.names4[n], n]
    if named and k == 1 and w.names4:
        n = draw(st.sampled_from(sorted(w.names4)))
        return ["net", w.names4[n], draw(gen.V4_PLENS), n]
    if named and k == 2 and w.names6:
        n = draw(st.sampled_from(sorted(w.names6)))
        return ["host", w.names6[n], n]
    if named and k == 3 and w.names6:
        n = draw(st.sampled_from(sorted(w.names6)))
        return ["net", w.names6[n], draw(gen.V6_PLENS), n]
    s = draw(gen.host(v6ok)) if k % 2 else draw(gen.net(v6ok))
    return s + [None]


def names_safe_plain(n):
    # written in place of an address, these heads read as keywords instead
    return not n.startswith(("any", "host", "object", "interface", "ip", "range"))


@st.composite
def definition(draw, dk, n, w, fqdn, v6ok, use_names):
    d = draw(st.one_of(st.none(), gen.freetext()))
    if dk == "nobj":
        spec = draw(netobj_spec(fqdn))
        w.nobjs.append(n)
        w.specs[("obj", n)] = ["obj", n, spec]
        return {"k": "nobj", "n": n, "d": d, "spec": spec}
    if dk == "sobj":
        svc = draw(service_spec())
        w.sobjs.append(n)
        return {"k": "sobj", "n": n, "d": d, "svc": svc}
    if dk == "ngrp":
        ms = []
        for _ in range(draw(st.integers(0, 5))):
            k = draw(st.integers(0, 5))
            if k == 0 and w.nobjs:
                ms.append(["obj", draw(st.sampled_from(w.nobjs))])
            elif k <= 2 and w.ngrps:
                ms.append(["grp", draw(st.sampled_from(w.ngrps))])
            else:
                h = draw(nhost(w, v6ok, use_names))
                if h[0] == "net" and h[3] is not None and not names_safe_plain(h[3]):
                    h = h[:3] + [None]
                ms.append(h)
        w.ngrps.append(n)
        w.specs[("grp", n)] = ["grp", n, [w.specs[tuple(m)] if m[0] in ("obj", "grp") else m[: (2 if m[0] == "host" else 3)] for m in ms]]
        return {"k": "ngrp", "n": n, "d": d, "ms": ms}
    if dk == "sgrp":
        ms = []
        for _ in range(draw(st.integers(0, 4))):
            k = draw(st.integers(0, 4))
            if k == 0 and w.sobjs:
                ms.append(["sobj", draw(st.sampled_from(w.sobjs))])
            elif k == 1 and w.sgrps:
                ms.append(["sgrp", draw(st.sampled_from(w.sgrps))])
            else:
                ms.append(["svc", draw(service_spec(group=True))])
        w.sgrps.append(n)
        return {"k": "sgrp", "n": n, "d": d, "ms": ms}
    if dk == "tgrp":
        ms = []
        for _ in range(draw(st.integers(0, 4))):
            k = draw(st.integers(0, 3))
            if k == 0 and w.tgrps:
                ms.append(["pgrp", draw(st.sampled_from(w.tgrps))])
            elif k == 1:
                ms.append(["range"] + draw(gen.port_range()))
            else:
                ms.append(["port", "eq", draw(port_value())])
        w.tgrps.append(n)
        return {"k": "tgrp", "n": n, "d": d, "p": draw(st.sampled_from(["tcp", "udp", "tcp-udp"])), "ms": ms}
    if dk == "igrp":
        ms = []
        for _ in range(draw(st.integers(0, 4))):
            if w.igrps and draw(st.integers(0, 3)) == 0:
                ms.append(["igrp", draw(st.sampled_from(w.igrps))])
            else:
                ms.append(["icmp", draw(icmp_type()), None])
        w.igrps.append(n)
        return {"k": "igrp", "n": n, "d": d, "ms": ms}
    ms = []
    for _ in range(draw(st.integers(0, 4))):
        if w.pgrps and draw(st.integers(0, 3)) == 0:
            ms.append(["prgrp", draw(st.sampled_from(w.pgrps))])
        else:
            ms.append(["proto", draw(st.one_of(st.sampled_from(PROTO_WORDS), st.integers(0, 255).map(str)))])
    w.pgrps.append(n)
    return {"k": "pgrp", "n": n, "d": d, "ms": ms}


@st.composite
def group_chain(draw, w, services=True, v6ok=True):
    """Groups of one kind, each nested in the next one; rules favour the last."""
    kind = draw(st.sampled_from(["ngrp", "ngrp", "ngrp", "sgrp", "tgrp", "igrp", "pgrp"] if services else ["ngrp"]))
    tag = {"ngrp": "grp", "sgrp": "sgrp", "tgrp": "pgrp", "igrp": "igrp", "pgrp": "prgrp"}[kind]
    known = {"ngrp": w.ngrps, "sgrp": w.sgrps, "tgrp": w.tgrps, "igrp": w.igrps, "pgrp": w.pgrps}[kind]

    def leaf():
        if kind == "ngrp":
            return draw(gen.host(v6ok)) + [None]
        if kind == "sgrp":
            return ["svc", draw(service_spec(group=True))]
        if kind == "tgrp":
            return ["port", "eq", draw(port_value())]
        if kind == "igrp":
            return ["icmp", draw(icmp_type()), None]
        return ["proto", str(draw(st.integers(0, 255)))]

    out = []
    depth = draw(st.integers(3, 7))
    for i in range(depth):
        n = f"nest{i}"
        ms = [leaf() for _ in range(draw(st.integers(0 if i else 1, 2)))]
        if i:
            ms.insert(draw(st.integers(0, len(ms))), [tag, f"nest{i - 1}"])
            if i > 1 and draw(st.integers(0, 3)) == 0:
                ms.append([tag, f"nest{draw(st.integers(0, i - 2))}"])
        it = {"k": kind, "n": n, "d": draw(st.one_of(st.none(), gen.freetext())), "ms": ms}
        if kind == "tgrp":
            it["p"] = "tcp"
        if kind == "ngrp":
            w.specs[("grp", n)] = ["grp", n, [w.specs[tuple(m)] if m[0] == "grp" else m[:2] for m in ms]]
        out.append(it)
    known += [f"nest{depth - 1}"] * 4 + [f"nest{draw(st.integers(0, depth - 1))}"]
    return out


@st.composite
def rhost(draw, w, v6ok=True, ifaces=True, objs=True):
    """A rule's address."""
    k = draw(st.integers(0, 11))
    if k <= 1:
        return ["any"]
    if k == 2:
        return [draw(st.sampled_from(["any4", "any6"]))]
    if k == 3 and ifaces:
        return ["iface", draw(st.sampled_from(NAMEIFS))]
    if objs and k in (4, 5) and w.nobjs:
        return ["obj", draw(st.sampled_from(w.nobjs))]
    if objs and k in (6, 7, 8) and w.ngrps:
        return ["grp", draw(st.sampled_from(w.ngrps))]
    h = draw(nhost(w, v6ok))
    if h[0] == "net" and h[3] is not None and not names_safe_plain(h[3]):
        h = h[:3] + [None]
    return h


@st.composite
def rule_item(draw, aid, w, kinds, v6ok, ifaces, remarks):
    kind = draw(st.sampled_from(("extended",) * 5 + tuple(kinds)))
    if kind not in kinds:
        kind = kinds[0]
    it = {"k": "rule", "id": aid, "ext": kind, "mode": draw(st.sampled_from(["permit", "deny"])), "remark": []}
    if remarks and draw(st.integers(0, 2)) == 0:
        it["remark"] = draw(st.lists(st.one_of(gen.freetext(), st.just(""), gen.freetext().map(lambda s: " " + s)), min_size=1, max_size=3))
    if kind == "standard":
        it["src"] = draw(rhost(w, v6ok, False, False))
        return it
    if kind == "webtype":
        if draw(st.booleans()):
            it["url"] = draw(st.sampled_from(["any", "http://www.example.com/*", "https://[2001:db8::1]:8443/a/very/long/path/index.html?a=b&c=d#e", "https://10.1.2.3:8443/x", "cifs://srv-1/y", "anything"]))
        else:
            it["dst"] = draw(rhost(w, v6ok, False, True))
            it["dport"] = draw(st.one_of(st.none(), port_spec()))
        it["opts"] = draw(rule_options(w))
        return it
    it["src"] = draw(rhost(w, v6ok, ifaces))
    it["dst"] = draw(rhost(w, v6ok, ifaces))
    k = draw(st.integers(0, 9))
    if k <= 1:
        it["proto"] = ["proto", draw(st.sampled_from(["icmp", "icmp6"]))]
        j = draw(st.integers(0, 3))
        if j == 0 and w.igrps:
            it["icmp"] = ["igrp", draw(st.sampled_from(w.igrps))]
        elif j:
            it["icmp"] = ["icmp", draw(icmp_type()), draw(st.one_of(st.none(), st.integers(0, 255).map(str)))]
    elif k == 2 and w.sgrps:
        it["proto"] = ["sgrp", draw(st.sampled_from(w.sgrps))]
    elif k == 3 and w.pgrps:
        it["proto"] = ["prgrp", draw(st.sampled_from(w.pgrps))]
    elif k == 4 and w.sobjs:
        it["proto"] = ["sobj", draw(st.sampled_from(w.sobjs))]
    elif k == 5:
        it["proto"] = ["proto", draw(st.one_of(st.sampled_from([p for p in PROTO_WORDS if not p.startswith("icmp")]), st.integers(0, 255).map(str)))]
    elif k == 6:
        it["proto"] = ["proto", "ip"]
    else:
        it["proto"] = ["proto", draw(st.sampled_from(["tcp", "udp"]))]
        for side in ("sport", "dport"):
            j = draw(st.integers(0, 5))
            if j == 0 and w.tgrps:
                it[side] = ["pgrp", draw(st.sampled_from(w.tgrps))]
            elif j <= (1 if side == "sport" else 3):
                it[side] = draw(port_spec())
    it["opts"] = draw(rule_options(w))
    return it


@st.composite
def rule_options(draw, w):
    o = []
    if draw(st.integers(0, 2)) == 0:
        log = []
        if draw(st.booleans()):
            log.append(draw(st.sampled_from(LOG_LEVELS)))
        if draw(st.booleans()):
            log += ["interval", str(draw(st.integers(1, 600)))]
        o.append(["log", log])
    if w.times and draw(st.integers(0, 2)) == 0:
        o.append(["time-range", draw(st.sampled_from(w.times))])
    if draw(st.integers(0, 3)) == 0:
        o.append(["inactive"])
    return o


# --- NAT -------------------------------------------------------------------


@st.composite
def nat_node(draw, w, grp=True):
    cands = [["obj", n] for n in w.nobjs] + ([["grp", n] for n in w.ngrps] if grp else [])
    return draw(st.sampled_from(cands)) if cands else None


@st.composite
def nat_item(draw, w):
    node = draw(nat_node(w))
    if node is None or len(w.nameifs) < 2:
        return None
    known = list(w.aliases) + ["any"]
    ri, mi = draw(st.sampled_from(known)), draw(st.sampled_from(known))
    # an interface is known by its nameif and by its own name
    ift = [w.aliases.get(i, i) if draw(st.integers(0, 5)) == 0 else i for i in (ri, mi)]
    if draw(st.integers(0, 2)) == 0 and w.nobjs:
        it = draw(object_nat(w, ri, mi))
        it["ift"] = ift
        return it
    it = {"ift": ift, "k": "nat", "if": [ri, mi], "pos": draw(st.sampled_from([None, None, "after-auto", "after-object", "after-auto 3", "after-auto 1", "after-auto 10", "after-object 12", "after-auto 250", "after-auto 65535"]))}
    it["type"] = draw(st.sampled_from(["static", "dynamic"]))
    it["real"] = draw(st.one_of(nat_node(w), st.just(["any"])))
    # `interface` needs a real mapped interface
    face = st.sampled_from([["interface"], ["interface", "ipv6"]])
    if it["type"] == "static":
        if mi != "any" and draw(st.integers(0, 3)) == 0:
            it["mapped"] = draw(face)
        else:
            it["mapped"] = draw(st.one_of(nat_node(w), st.just(["any"])))
    else:
        k = draw(st.integers(0, 3))
        if k == 0 and mi != "any":
            it["mapped"] = draw(face)
        elif k == 1:
            n = draw(nat_node(w))
            it["mapped"] = ["pool", n, draw(st.lists(st.sampled_from(["round-robin", "extended", "flat", "flat include-reserve"]), max_size=2, unique=True))]
        else:
            it["mapped"] = draw(nat_node(w))
        if it["mapped"][0] != "interface" and mi != "any":
            it["fallback"] = draw(st.sampled_from([None, None, "interface", "interface ipv6"]))
    if draw(st.integers(0, 2)) == 0:
        it["dst"] = [draw(st.one_of(nat_node(w), nat_node(w), st.just(["any"]))), draw(nat_node(w))]
        if mi != "any" and draw(st.integers(0, 3)) == 0:
            it["dst"][0] = draw(face)
    if w.nat_svc and draw(st.booleans()):
        # port translation: two objects that both give the source, or both the destination port
        side = "dst" if it["type"] == "dynamic" else draw(st.sampled_from(["src", "dst"]))
        it["service"] = [side] + [draw(st.sampled_from(w.nat_svc[side])) for _ in range(2)]
    it["opts"] = draw(st.lists(st.sampled_from(["net-to-net", "dns", "unidirectional", "no-proxy-arp", "inactive", "route-lookup"]), max_size=3, unique=True))
    it["desc"] = draw(st.one_of(st.none(), gen.freetext()))
    return it


@st.composite
def object_nat(draw, w, ri, mi):
    it = {"k": "onat", "n": draw(st.sampled_from(w.nobjs)), "if": [ri, mi], "type": draw(st.sampled_from(["static", "dynamic"]))}
    k = draw(st.integers(0, 4))
    fb = mi != "any"
    if k == 0 and mi != "any":
        it["mapped"] = draw(st.sampled_from([["interface"], ["interface", "ipv6"]]))
        fb = False
    elif k == 1 and it["type"] == "dynamic":
        it["mapped"] = ["pool", draw(nat_node(w)), draw(st.lists(st.sampled_from(["round-robin", "extended", "flat", "flat include-reserve"]), max_size=2, unique=True))]
    elif k == 2:
        it["mapped"] = ["net", draw(gen.v6), draw(gen.V6_PLENS)]
    elif k == 3:
        it["mapped"] = draw(gen.host())
    else:
        it["mapped"] = draw(nat_node(w))
    if fb and it["type"] == "dynamic":
        it["fallback"] = draw(st.sampled_from([None, None, "interface", "interface ipv6"]))
    if it["type"] == "static" and it["mapped"][0] != "pool":
        s = draw(st.integers(0, 3))
        if s == 0:
            it["service"] = [draw(st.sampled_from(["tcp", "udp"])), draw(port_value()), draw(port_value())]
    it["opts"] = draw(st.lists(st.sampled_from(["route-lookup", "no-proxy-arp", "dns"]), max_size=2, unique=True))
    if "service" in it:
        it["opts"] = [x for x in it["opts"] if x != "dns"]
    if draw(st.integers(0, 2)) == 0:
        # defined together with its NAT
        n = f"{draw(st.sampled_from(w.nobjs))}-n{len(w.nobjs)}"
        if n not in w.nobjs and n not in w.ngrps:
            it["n"] = n
            it["def"] = {"spec": draw(netobj_spec(False)), "d": draw(st.one_of(st.none(), gen.freetext()))}
            w.nobjs.append(n)
    return it


# --- printing --------------------------------------------------------------


def p_host(h):
    k = h[0]
    if k in ("any", "any4", "any6"):
        return k
    if k == "iface":
        return f"interface {h[1]}"
    if k == "obj":
        return f"object {h[1]}"
    if k == "grp":
        return f"object-group {h[1]}"
    n = h[-1]
    if k == "host":
        return f"host {n or h[1]}"
    v, _ = nm.ip(h[1])
    if v == 4:
        return f"{n or h[1]} {nm.netmask(h[2])}"
    return f"{n or h[1]}/{h[2]}"


def p_port(p):
    if p[0] == "port":
        return f"{p[1]} {p[2]}"
    if p[0] == "range":
        return f"range {p[1]} {p[2]}"
    return f"object-group {p[1]}"


def p_service(s):
    r = s["p"]
    if "type" in s:
        r += " " + s["type"]
    if "code" in s:
        r += " " + s["code"]
    if "src" in s:
        r += " source " + p_port(s["src"])
    if "dst" in s:
        r += " destination " + p_port(s["dst"])
    return r


def p_clock(t):
    return f"{t[0]:02d}:{t[1]:02d}"


def p_timedate(t):
    return f"{p_clock(t)} {t[2]:02d} {MONTHS[t[3]-1]} {t[4]}"


def p_options(opts):
    r = ""
    for o in opts or []:
        if o[0] == "log":
            r += " log" + "".join(" " + x for x in o[1])
        elif o[0] == "time-range":
            r += f" time-range {o[1]}"
        else:
            r += " inactive"
    return r


def p_natnode(n):
    if n[0] in ("any", "interface"):
        return " ".join(n)
    if n[0] == "host":
        return n[1]
    if n[0] == "net":
        return f"{n[1]}/{n[2]}"
    if n[0] == "pool":
        return f"pat-pool {n[1][1]}" + "".join(" " + o for o in n[2])
    return n[1]


def p_onat(it):
    s = f" nat ({it['ift'][0]},{it['ift'][1]}) {it['type']} {p_natnode(it['mapped'])}"
    if it.get("fallback"):
        s += " " + it["fallback"]
    if it.get("service"):
        s += " service " + " ".join(it["service"])
    return s + "".join(" " + o for o in it["opts"])


def lines(it):
    k = it["k"]
    if k == "version":
        return [it["v"]]
    if k == "hostname":
        return ["hostname " + it["v"]]
    if k == "domain":
        return ["domain-name " + it["v"]]
    if k == "name":
        return [f"name {it['a']} {it['n']}" + (f" description {it['d']}" if it["d"] else "")]
    if k == "iface":
        r = [f"interface {it['alias']}"]
        if it["desc"]:
            r.append(f" description {it['desc']}")
        if it["nameif"]:
            r.append(f" nameif {it['nameif']}")
        r += [" " + e for e in it["extra"]]
        for v, a, p, s in it["addrs"]:
            if v == "4":
                r.append(f" ip address {a} {nm.netmask(p)}" + (f" standby {s}" if s else ""))
            else:
                r.append(f" ipv6 address {a}/{p}" + (f" standby {s}" if s else ""))
        return r
    if k == "time":
        r = [f"time-range {it['n']}"]
        for i in it["items"]:
            if i[0] == "absolute":
                r.append(" absolute" + (f" start {p_timedate(i[1])}" if i[1] else "") + (f" end {p_timedate(i[2])}" if i[2] else ""))
            else:
                r.append(f" periodic {i[1]} {p_clock(i[2])} to " + (f"{i[3]} " if i[3] else "") + p_clock(i[4]))
        return r
    desc = [f" description {it['d']}"] if it.get("d") else []
    if k == "nobj":
        s = it["spec"]
        r = [f"object network {it['n']}"]
        if s[0] == "host":
            r.append(f" host {s[1]}")
        elif s[0] == "net":
            r.append(f" subnet {s[1]} {nm.netmask(s[2])}" if nm.ip(s[1])[0] == 4 else f" subnet {s[1]}/{s[2]}")
        elif s[0] == "range":
            r.append(f" range {s[1]} {s[2]}")
        else:
            r.append(" fqdn " + (f"{s[1]} " if s[1] else "") + s[2])
        return r + desc
    if k == "sobj":
        return [f"object service {it['n']}", " service " + p_service(it["svc"])] + desc
    if k == "ngrp":
        r = [f"object-group network {it['n']}"] + desc
        for m in it["ms"]:
            if m[0] == "grp":
                r.append(f" group-object {m[1]}")
            else:
                r.append(" network-object " + p_host(m))
        return r
    if k == "sgrp":
        r = [f"object-group service {it['n']}"] + desc
        for m in it["ms"]:
            r.append({"sobj": lambda: f" service-object object {m[1]}", "sgrp": lambda: f" group-object {m[1]}", "svc": lambda: " service-object " + p_service(m[1])}[m[0]]())
        return r
    if k == "tgrp":
        r = [f"object-group service {it['n']} {it['p']}"] + desc
        for m in it["ms"]:
            r.append(f" group-object {m[1]}" if m[0] == "pgrp" else " port-object " + p_port(m))
        return r
    if k == "igrp":
        r = [f"object-group icmp-type {it['n']}"] + desc
        for m in it["ms"]:
            r.append(f" group-object {m[1]}" if m[0] == "igrp" else f" icmp-object {m[1]}")
        return r
    if k == "pgrp":
        r = [f"object-group protocol {it['n']}"] + desc
        for m in it["ms"]:
            r.append(f" group-object {m[1]}" if m[0] == "prgrp" else f" protocol-object {m[1]}")
        return r
    if k == "rule":
        r = [f"access-list {it['id']} remark {x}" for x in it["remark"]]
        head = f"access-list {it['id']} {it['ext']} {it['mode']} "
        if it["ext"] == "standard":
            return r + [head + p_host(it["src"])]
        if it["ext"] == "webtype":
            if "url" in it:
                return r + [head + "url " + it["url"] + p_options(it["opts"])]
            return r + [head + "tcp " + p_host(it["dst"]) + (" " + p_port(it["dport"]) if it["dport"] else "") + p_options(it["opts"])]
        t, v = it["proto"]
        s = head + {"proto": "", "sgrp": "object-group ", "prgrp": "object-group ", "sobj": "object "}[t] + v
        s += " " + p_host(it["src"]) + (" " + p_port(it["sport"]) if it.get("sport") else "")
        s += " " + p_host(it["dst"]) + (" " + p_port(it["dport"]) if it.get("dport") else "")
        ic = it.get("icmp")
        if ic:
            s += f" object-group {ic[1]}" if ic[0] == "igrp" else f" {ic[1]}" + (f" {ic[2]}" if ic[2] is not None else "")
        return r + [s + p_options(it["opts"])]
    if k == "ag":
        return [f"access-group {it['acl']} {it['dir']} interface {it['if']}"]
    if k == "agg":
        return [f"access-group {it['acl']} global"]
    if k == "nat":
        s = f"nat ({it['ift'][0]},{it['ift'][1]})"
        if it["pos"]:
            s += " " + it["pos"]
        s += f" source {it['type']} {p_natnode(it['real'])} {p_natnode(it['mapped'])}"
        if it.get("fallback"):
            s += " " + it["fallback"]
        if it.get("dst"):
            s += f" destination static {p_natnode(it['dst'][0])} {p_natnode(it['dst'][1])}"
        if it.get("service"):
            s += " service " + " ".join(it["service"][1:])
        s += "".join(" " + o for o in it["opts"])
        if it["desc"]:
            s += " description " + it["desc"]
        return [s]
    if k == "onat":
        if it.get("def"):
            d = it["def"]
            r = lines({"k": "nobj", "n": it["n"], "d": d["d"], "spec": d["spec"]})
            return r[:2] + [p_onat(it)] + r[2:]
        return [f"object network {it['n']}", p_onat(it)]
    if k == "raw":
        return list(it["lines"])
    raise AssertionError(k)


V6_TOKEN = re.compile(r"(?<![^\s/])[0-9a-fA-F.]*:[0-9a-fA-F:.]+(?![^\s/])")
FREE = re.compile(r"^(access-list \S+ remark | ?description |access-list \S+ webtype )")


def respell(l, k):
    """The line with its IPv6 addresses in other written forms, from form k on."""
    if FREE.match(l):
        return l
    head, sep, tail = l.partition(" description ")
    n = 0

    def sub(m):
        nonlocal n
        try:
            ipaddress.IPv6Address(m[0])
        except ValueError:
            return m[0]
        n += 1
        return gen.spell(m[0], k + n)

    return V6_TOKEN.sub(sub, head) + sep + tail


def text(case, eol="\n"):
    sp = case.get("spell")
    r = []
    for it in case["items"]:
        for l in lines(it):
            r.append(respell(l, sp + len(r)) if sp and it["k"] not in ("raw", "hostname", "domain", "version") else l)
    return eol.join(r) + eol


# --- expected result -------------------------------------------------------


def norm_v6(a):
    return str(ipaddress.ip_address(a))


def e_host(h):
    k = h[0]
    if k == "host":
        return ["host", norm_v6(h[1]), h[2]]
    if k == "net":
        v, a = nm.ip(h[1])
        return ["net", nm.fmt(v, nm.prefix_bounds(v, a, h[2])[0]), h[2], h[3]]
    return list(h)


def e_port(p):
    return list(p) if p else None


def e_rule(it):
    r = {
        "id": it["id"],
        "mode": it["mode"],
        "sport": e_port(it.get("sport")),
        "dport": e_port(it.get("dport")),
        "icmp": it.get("icmp"),
        "opts": {},
        "remark": list(it["remark"]),
        "proto": it.get("proto"),
        "src": e_host(it["src"]) if "src" in it else ["any"],
        "dst": e_host(it["dst"]) if "dst" in it else ["any"],
    }
    if it["ext"] == "standard":
        r["proto"] = ["proto", "ip"]
    if it["ext"] == "webtype":
        if "url" in it:
            r["proto"] = ["proto", "url"]
            r["dst"] = ["url", it["url"]]
        else:
            r["proto"] = ["proto", "tcp"]
    for o in it.get("opts") or []:
        if o[0] == "log":
            r["opts"]["log"] = ["log", list(o[1])]
        elif o[0] == "time-range":
            r["opts"]["time-range"] = ["time", o[1]]
        else:
            r["opts"]["inactive"] = ["inactive"]
    return r


def rules(case):
    return [e_rule(it) for it in case["items"] if it["k"] == "rule"]


def e_clock(t):
    return f"{t[0]:02d}:{t[1]:02d}:00"


def e_timedate(t):
    return None if t is None else f"{t[4]:04d}-{t[3]:02d}-{t[2]:02d}T{e_clock(t)}"


def e_time(i):
    if i[0] == "absolute":
        return ["absolute", e_timedate(i[1]), e_timedate(i[2])]
    return ["periodic", [i[1]], e_clock(i[2]), [i[3]] if i[3] else [], e_clock(i[4])]


def definitions(case):
    d = {
        "hostname": "",
        "domain": "",
        "names": [],
        "nobjs": {},
        "sobjs": {},
        "times": {},
        "network": {},
        "service": {},
        "port": {},
        "protocol": {},
        "icmp": {},
        "ifaces": {},
    }
    for it in case["items"]:
        k = it["k"]
        if k == "onat" and it.get("def"):
            it = {"k": "nobj", "n": it["n"], **it["def"]}
            k = "nobj"
        if k == "hostname":
            d["hostname"] = it["v"]
        elif k == "domain":
            d["domain"] = it["v"]
        elif k == "name":
            d["names"].append([it["n"], norm_v6(it["a"]), it["d"]])
        elif k == "nobj":
            ats = nm.atoms(it["spec"])
            d["nobjs"][it["n"]] = {"desc": it["d"], "set": "all" if ("all",) in ats else nm.normal(ats)}
        elif k == "sobj":
            d["sobjs"][it["n"]] = {"desc": it["d"], "svc": it["svc"]}
        elif k == "time":
            d["times"][it["n"]] = [e_time(i) for i in it["items"]]
        elif k == "ngrp":
            d["network"][it["n"]] = [it["d"], [e_host(m) for m in it["ms"]]]
        elif k == "sgrp":
            d["service"][it["n"]] = [it["d"], it["ms"]]
        elif k == "tgrp":
            d["port"][it["n"]] = [it["d"], it["p"], it["ms"]]
        elif k == "pgrp":
            d["protocol"][it["n"]] = [it["d"], it["ms"]]
        elif k == "igrp":
            d["icmp"][it["n"]] = [it["d"], it["ms"]]
        elif k == "iface":
            d["ifaces"][it["alias"]] = {
                "nameif": it["nameif"],
                "desc": it["desc"],
                "addrs": sorted(str(ipaddress.ip_interface(f"{a}/{p}")) for _, a, p, _ in it["addrs"]),
                "ag": [],
                "routes": [],
                "sw": None,
            }
    for it in case["items"]:
        if it["k"] == "ag":
            for f in d["ifaces"].values():
                if f["nameif"] == it["if"]:
                    f["ag"] = sorted([x for x in f["ag"] if x[0] != it["dir"]] + [[it["dir"], it["acl"], it["dir"]]])
    return d


KIND_OF = {"obj": "nobjs", "grp": "network", "sobj": "sobjs", "sgrp": "service", "pgrp": "port", "prgrp": "protocol", "igrp": "icmp", "time": "times"}


def reached(case):
    """The definitions the access rules name, directly or through groups."""
    defs = definitions(case)
    out = {}

    def go(x):
        if not x or x[0] not in KIND_OF:
            return
        k = KIND_OF[x[0]]
        d = defs[k][x[1]]
        if f"{k} {x[1]}" in out:
            return
        out[f"{k} {x[1]}"] = [d]
        if k in ("network", "service", "port", "protocol", "icmp"):
            for m in d[-1]:
                go(m)

    for r in rules(case):
        for f in ("proto", "src", "sport", "dst", "dport", "icmp"):
            go(r[f])
        for v in r["opts"].values():
            go(v)
    return out


def e_natnode(n, mi):
    if n is None:
        return None
    if n[0] == "pool":
        return list(n[1])
    if n[0] == "interface":
        return ["iface", mi]
    if n[0] in ("host", "net"):
        return e_host(list(n) + [None])
    return list(n)


def nats(case):
    out = {"1": [], "2": [], "3": []}
    for it in case["items"]:
        if it["k"] not in ("nat", "onat"):
            continue
        ri, mi = it["if"]
        fb = it.get("fallback")
        r = {
            "type": it["type"],
            "fallback": None if not fb else [["iface", mi], fb.endswith("ipv6")],
            "real_service": None,
            "mapped_service": None,
            "desc": it.get("desc"),
        }
        if it["k"] == "nat":
            d = it.get("dst")
            r["real"] = [ri, e_natnode(it["real"], mi), e_natnode(d[1], mi) if d else None]
            r["mapped"] = [mi, e_natnode(it["mapped"], mi), e_natnode(d[0], mi) if d else None]
            if it.get("service"):
                # source ports: real first; destination ports: mapped first
                side, a, b = it["service"]
                if side == "dst":
                    a, b = b, a
                r["real_service"], r["mapped_service"] = ["sobj", a], ["sobj", b]
            r["opts"] = {o: True for o in it["opts"]}
            if it["pos"]:
                r["opts"]["after-auto"] = True
            out["3" if it["pos"] else "1"].append(r)
        else:
            r["real"] = [ri, ["obj", it["n"]], ["any"]]
            r["mapped"] = [mi, e_natnode(it["mapped"], mi), ["any"]]
            r["opts"] = {o: True for o in it["opts"]}
            r["opts"]["auto"] = True
            if it.get("service"):
                p, a, b = it["service"]
                r["real_service"] = {"p": p, "port": [a]}
                r["mapped_service"] = {"p": p, "port": [b]}
            out["2"].append(r)
    return out


def specs(case):
    """('obj'|'grp', name) -> netmodel spec, from the items."""
    sp = {}
    for it in case["items"]:
        if it["k"] == "nobj":
            sp[("obj", it["n"])] = ["obj", it["n"], it["spec"]]
        elif it["k"] == "onat" and it.get("def"):
            sp[("obj", it["n"])] = ["obj", it["n"], it["def"]["spec"]]
        elif it["k"] == "ngrp":
            sp[("grp", it["n"])] = ["grp", it["n"], [to_spec(m, sp) for m in it["ms"]]]
    return sp


def to_spec(h, sp):
    if h[0] in ("obj", "grp"):
        return sp[(h[0], h[1])]
    if h[0] == "host":
        return h[:2]
    if h[0] == "net":
        return h[:3]
    return list(h)
