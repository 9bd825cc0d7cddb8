"""Documented service names, numbers and operators are read as themselves, and ports compare as values."""
from hypothesis import strategies as st

from acltk.aclObjects import Port, PortRange, PortUtil

from vlib import asa, gen, observe, parse
from vlib.core import Sub

ID = "P22"
RULE = (
    "words: all documented port names, ICMP type names, protocol names, weekdays, months and log levels are put, in drawn "
    "groups, in every place of an ASA or IOS configuration that takes one, next to numbers, with every operator; every one "
    "must come out as written, and names put together from pieces of documented ones, or of another kind, must be refused. "
    "table: every (name, protocol) pair of a reference table and names drawn near them are looked up in every case spelling "
    "of the protocol. order: ports and ranges with drawn operators and numbers are compared with each other in every way. "
    "Non-trivial: at least three places (words), a name of the table or a proper part of one (table), at least three "
    "different ports (order)."
)

# name: number per protocol, from the vendors' documentation
TABLE = {
    "tcp": "aol 5190 bgp 179 chargen 19 citrix-ica 1494 cmd 514 ctiqbe 2748 daytime 13 discard 9 domain 53 echo 7 exec 512 "
    "finger 79 ftp 21 ftp-data 20 gopher 70 https 443 h323 1720 hostname 101 ident 113 imap4 143 irc 194 kerberos 750 "
    "klogin 543 kshell 544 ldap 389 ldaps 636 lpd 515 login 513 lotusnotes 1352 netbios-ssn 139 nntp 119 "
    "pcanywhere-data 5631 pim-auto-rp 496 pop2 109 pop3 110 pptp 1723 smtp 25 sqlnet 1521 ssh 22 sunrpc 111 tacacs 49 "
    "talk 517 telnet 23 uucp 540 whois 43 www 80",
    "udp": "biff 512 bootpc 68 bootps 67 discard 9 domain 53 dnsix 195 echo 7 isakmp 500 kerberos 750 mobile-ip 434 "
    "nameserver 42 netbios-ns 137 netbios-dgm 138 ntp 123 pcanywhere-status 5632 pim-auto-rp 496 radius 1645 "
    "radius-acct 1646 rip 520 secureid-udp 5510 snmp 161 snmptrap 162 sunrpc 111 syslog 514 tacacs 49 talk 517 tftp 69 "
    "time 37 who 513 xdmcp 177",
    "icmp": "echo 8 echo-reply 0 information-reply 16 information-request 15 mask-reply 18 mask-request 17 "
    "mobile-redirect 32 parameter-problem 12 redirect 5 router-advertisement 9 router-solicitation 10 source-quench 4 "
    "time-exceeded 11 timestamp-reply 14 timestamp-request 13 unreachable 3 traceroute 30",
}
TABLE = {p: dict(zip(t.split()[::2], map(int, t.split()[1::2]))) for p, t in TABLE.items()}
NAMES = sorted({n for t in TABLE.values() for n in t})


# --- the service table ------------------------------------------------------------


@st.composite
def lookups(draw):
    n = draw(st.sampled_from(NAMES + asa.PORT_WORDS))
    k = draw(st.integers(0, 6))
    if k == 1:
        n = n[: draw(st.integers(0, len(n)))]
    elif k == 2:
        n = n + draw(st.sampled_from(["x", "-data", "s", " ", "2", "-"]))
    elif k == 3:
        n = draw(st.sampled_from([n.upper(), n.title(), n[::-1], n[1:], " " + n]))
    elif k == 4:
        n = draw(st.sampled_from(["", "tcp", "TCP", "80", "rpc)", "(rpc)", "|", "DNS", "sunrpc (rpc)", "echo\t"]))
    p = draw(st.sampled_from([None, "tcp", "udp", "icmp", "TCP", "UDP", "ICMP", "Tcp", "uDP", "ip", "", "TCP,UDP", "sctp"]))
    return {"name": n, "proto": p}


def all_lookups():
    return [{"name": n, "proto": p} for n in NAMES for p in (None, "tcp", "UDP", "Icmp")]


def lookup(case, ctx):
    n, p = case["name"], case["proto"]
    with ctx.sut(f"getservbyname({n!r}, {p!r})"):
        got = PortUtil.getservbyname(n, p)
        services = [tuple(s)[:3] for s in PortUtil.services()]
    known = {q: t[n] for q, t in TABLE.items() if n in t}
    listed = [int(x[2]) for x in services if x[0] == n]
    ctx.label("known" if known else "unknown", str(p))
    ctx.note(known or any(n and n in x for x in NAMES), f"{n!r} {p!r}")
    if known:
        if p is None:
            ctx.true(f"number of {n}", got in known.values(), f"got {got}, documented {known}")
        elif p.lower() in known:
            ctx.eq(f"number of {n} over {p}", got, known[p.lower()])
        else:
            ctx.eq(f"number of {n} over {p}, which it is not documented for", got, None)
        for q, num in known.items():
            ctx.eq(f"entries of the service table for {n} over {q}", [x[2] for x in services if x[0] == n and x[1] == q.upper()], [num])
    elif n not in asa.PORT_WORDS:
        ctx.eq(f"number of the unknown name {n!r}", got, None)
        ctx.eq(f"entries of the service table for the unknown name {n!r}", listed, [])


# --- words in their places -----------------------------------------------------------

NUM = gen.PORT_NUMS.map(str)
A = "access-list A extended permit "


def asa_port_places(proto, op, a, b):
    """(statement, where its port shows) with operator op on a, or the range a b."""
    spec = ["range", a, b] if op == "range" else ["port", op, a]
    t = " ".join(spec if op == "range" else spec[1:])
    return [
        (A + f"{proto} any any {t}", "dport", spec),
        (A + f"{proto} any {t} any", "sport", spec),
        (A + f"{proto} host 10.1.1.1 {t} 10.0.0.0 255.0.0.0 {t} log", "both", spec),
        (A + f"{proto} any any {t} inactive", "dport", spec),
        (f"access-list W webtype deny tcp any {t}", "dport", spec),
        (f"object service zz%d\n service {proto} destination {t}", "dst", spec),
        (f"object service zz%d\n service {proto} source {t} destination {t}", "srcdst", spec),
        (f"object-group service zz%d\n service-object {proto} source {t}", "msrc", spec),
        (f"object-group service zz%d {proto}\n port-object {t}", "mport", spec),
        (f"object-group service zz%d tcp-udp\n port-object {t}", "mport", spec),
    ]


def ios_port_places(proto, op, a, b):
    spec = ["range", a, b] if op == "range" else ["port", op, a]
    t = " ".join(spec if op == "range" else spec[1:])
    return [
        (f"ip access-list extended X%d\n permit {proto} any any {t}", "dport", spec),
        (f"ip access-list extended X%d\n permit {proto} any {t} any log", "sport", spec),
        (f"access-list 101 deny {proto} any {t} any {t}", "both", spec),
        (f"access-list 150 deny {proto} any any {t} fragments", "dport", spec),
        (f"ipv6 access-list Y%d\n sequence 10 permit {proto} any any {t}", "dport", spec),
        (f"object-group service zz%d\n {proto} destination {t}", "mdst", spec),
        (f"object-group service zz%d\n {proto} source {t}", "msrc", spec),
    ]


def icmp_places(fmt, n):
    if fmt == "asa":
        return [
            (A + f"icmp any any {n}", "icmp", n),
            (A + f"icmp any any {n} 3 log", "icmp3", n),
            (A + f"icmp6 host 2001:db8::1 any {n} inactive", "icmp", n),
            (f"object service zz%d\n service icmp {n}", "type", n),
            (f"object service zz%d\n service icmp6 {n} 7", "type", n),
            (f"object-group service zz%d\n service-object icmp {n}", "mtype", n),
            (f"object-group icmp-type zz%d\n icmp-object {n}", "micmp", n),
        ]
    return [
        (f"ip access-list extended X%d\n permit icmp any any {n}", "icmp", n),
        (f"access-list 101 permit icmp any any {n} log", "icmp", n),
    ]


def proto_places(fmt, n):
    if fmt == "asa":
        r = [(A + f"{n} any any", "proto", n), (A + f"{n} host 10.1.1.1 any log", "proto", n), (f"object-group service zz%d\n service-object {n}", "mproto", n)]
        if not n.isdigit():
            r.append((f"object-group protocol zz%d\n protocol-object {n}", "mprot", n))
        return r
    return [(f"ip access-list extended X%d\n permit {n} any any", "proto", n), (f"access-list 199 deny {n} any any log", "proto", n), (f"object-group service zz%d\n {n}", "mproto", n)]


IOS_OPS = asa.OPS + ["range"]


@st.composite
def words(draw, fmt):
    places = []
    for _ in range(draw(st.integers(2, 5))):
        k = draw(st.integers(0, 9))
        if k <= 6:
            op = draw(st.sampled_from(IOS_OPS))
            a = draw(st.one_of(st.sampled_from(asa.PORT_WORDS), NUM))
            b = draw(st.sampled_from(asa.PORT_WORDS)) if a.isdigit() else draw(st.one_of(st.sampled_from(asa.PORT_WORDS), NUM))
            pl = (asa_port_places if fmt == "asa" else ios_port_places)(draw(st.sampled_from(["tcp", "udp"])), op, a, b)
            pl = [x for x in pl if not ("port-object" in x[0] and op not in ("eq", "range"))]
        elif k == 7:
            pl = icmp_places(fmt, draw(st.one_of(st.sampled_from(asa.ICMP_WORDS), st.integers(0, 255).map(str))))
        elif k == 8:
            # for these the grammars have places of their own
            ws = [p for p in asa.PROTO_WORDS if p not in ("icmp", "icmp6", "tcp", "udp")]
            pl = proto_places(fmt, draw(st.one_of(st.sampled_from(ws), st.integers(0, 255).map(str))))
        else:
            pl = log_places(fmt, draw)
        places.append(list(draw(st.sampled_from(pl))))
    return {"fmt": fmt, "places": places}


def log_places(fmt, draw):
    if fmt == "asa":
        n = draw(st.sampled_from(asa.LOG_LEVELS))
        iv = str(draw(st.integers(1, 600)))
        return [(A + f"ip any any log {n}", "log", [n]), (A + f"ip any any log {n} interval {iv}", "log", [n, "interval", iv]), (A + f"ip any any log interval {iv} inactive", "log", ["interval", iv])]
    return [("ip access-list extended X%d\n permit ip any any log", "log", [])]


def all_words(fmt):
    """Every word in every place, a few to a configuration."""
    out = []
    ps = asa_port_places if fmt == "asa" else ios_port_places
    n = len(ps("tcp", "eq", "1", "2"))
    ops = IOS_OPS
    for i, w in enumerate(asa.PORT_WORDS):
        pl = []
        for j in range(n):
            op = ops[(i + j) % len(ops)]
            x = ps(["tcp", "udp"][(i + j) % 2], op, w, asa.PORT_WORDS[(i * 7 + j) % len(asa.PORT_WORDS)])[j]
            if "port-object" in x[0] and op not in ("eq", "range"):
                x = ps("tcp", "eq", w, "")[j]
            pl.append(list(x))
        out.append({"fmt": fmt, "places": pl})
    for w in asa.ICMP_WORDS:
        out.append({"fmt": fmt, "places": [list(x) for x in icmp_places(fmt, w)]})
    for w in asa.PROTO_WORDS:
        if w not in ("icmp", "icmp6", "tcp", "udp"):
            out.append({"fmt": fmt, "places": [list(x) for x in proto_places(fmt, w)]})
    return out


def config(fmt, places):
    lines = []
    for i, (t, _, _) in enumerate(places):
        lines += (t.replace("%d", str(i))).split("\n")
    if fmt == "asa":
        return "ASA Version 9.1(2)\n" + "\n".join(lines) + "\n"
    return "version 15.2\nhostname x\n" + "\n".join(lines) + "\nend\n"


def show(c, i, where, fmt, rule):
    """What the configuration has in this place."""
    if where in ("dport", "sport"):
        return rule[where]
    if where == "both":
        return rule["dport"] if rule["dport"] == rule["sport"] else [rule["sport"], rule["dport"]]
    if where == "icmp":
        return rule["icmp"] and rule["icmp"][1]
    if where == "icmp3":
        return rule["icmp"][1] if rule["icmp"][2] == "3" else rule["icmp"]
    if where == "proto":
        return rule["proto"][1]
    if where == "log":
        return rule["opts"]["log"][1] if fmt == "asa" else []
    n = f"zz{i}"
    if where in ("dst", "srcdst", "type"):
        s = observe.service(c.objects.service[n])
        if where == "srcdst" and s["src"] != s["dst"]:
            return s
        return s["type"] if where == "type" else s["dst"]
    if where == "mport":
        return observe.member(c.groups.port[n].objects[0])
    if where == "micmp":
        return observe.member(c.groups.icmp[n].objects[0])[1]
    if where == "mprot":
        return observe.member(c.groups.protocol[n].objects[0])[1]
    m = observe.member(c.groups.service[n].objects[0])[1]
    if where == "mproto":
        return m["p"] if isinstance(m, dict) else m
    return m[{"msrc": "src", "mdst": "dst", "mtype": "type"}[where]]


def check_words(case, ctx):
    fmt, places = case["fmt"], case["places"]
    text = config(fmt, places)
    ctx.label(*{p[1] for p in places})
    ctx.note(len(places) >= 2, text)
    with ctx.sut(f"parsing {text}"):
        c = (parse.asa if fmt == "asa" else parse.ios)(text)
        rules = observe.rules(c)
    # IOS numbered lists are all read before or after the named ones: pair by statement
    n = 0
    for i, (t, where, want) in enumerate(places):
        r = None
        if "access-list" in t:
            ctx.true("one rule per entry", n < len(rules), text)
            r = rules[n]
            n += 1
        ctx.eq(f"statement {t!r}", show(c, i, where, fmt, r), want)
    ctx.eq("number of rules", len(rules), n)


# --- words of another kind, or cut and pasted ones ------------------------------------


@st.composite
def wrong(draw, fmt):
    kind = draw(st.sampled_from(["port", "port", "icmp", "proto"]))
    own = {"port": asa.PORT_WORDS, "icmp": asa.ICMP_WORDS, "proto": asa.PROTO_WORDS + ["icmpv6"]}[kind]
    other = {"port": asa.ICMP_WORDS + asa.PROTO_WORDS, "icmp": asa.PORT_WORDS, "proto": asa.PORT_WORDS + asa.ICMP_WORDS}[kind]
    k = draw(st.integers(0, 5))
    w = draw(st.sampled_from(own))
    if k == 0:
        w = draw(st.sampled_from(other))
    elif k == 1:
        w = w[: draw(st.integers(1, len(w)))]
    elif k == 2:
        w += draw(st.sampled_from(["s", "x", "-x", "-data", "2", "0", "-", "_", "d"]))
    elif k == 3:
        w = w + "-" + draw(st.sampled_from(own))
    elif k == 4:
        w = draw(st.sampled_from([w.upper(), w.title(), w[::-1], w[1:], w.replace("-", "_"), w.replace("-", "")]))
    else:
        w = draw(st.sampled_from(own)) + draw(st.sampled_from(own))
    taken = set(own) | {"icmpv6", "any", "host", "log", "inactive", "echo-request", "object", "object-group", "interface"}
    if not w or w in taken or w.isdigit() or (kind == "icmp" and (w in ("established", "fragments") or w.startswith("nd-"))):
        return None
    if kind == "port":
        op = draw(st.sampled_from(IOS_OPS))
        pl = (asa_port_places if fmt == "asa" else ios_port_places)(draw(st.sampled_from(["tcp", "udp"])), op, w, "www")
        if op == "range" and draw(st.booleans()):
            pl = (asa_port_places if fmt == "asa" else ios_port_places)("tcp", op, "www", w)
        pl = [x for x in pl if not ("port-object" in x[0] and op not in ("eq", "range"))]
    elif kind == "icmp":
        pl = icmp_places(fmt, w)
    else:
        pl = [x for x in proto_places(fmt, w) if x[1] != "mprot"]
    return {"fmt": fmt, "place": list(draw(st.sampled_from(pl))), "word": w, "kind": kind}


def check_wrong(case, ctx):
    text = config(case["fmt"], [case["place"]])
    ctx.label(case["kind"], case["fmt"])
    ctx.note(True, text)
    ctx.must_raise(f"{case['word']!r} is no {case['kind']}: {text}", parse.asa if case["fmt"] == "asa" else parse.ios, text)


# --- order ---------------------------------------------------------------------------


@st.composite
def ports(draw):
    num = st.one_of(st.sampled_from(["1", "9", "10", "80", "443", "www", "ssh", "8080"]), NUM, st.sampled_from(asa.PORT_WORDS))
    one = st.tuples(st.sampled_from(["eq", "eq", "gt", "lt", "neq", None]), num).map(list)
    return {"ports": draw(st.lists(one, min_size=2, max_size=6)), "range": [draw(num), draw(num)]}


def check_order(case, ctx):
    vals = [(op or "", n) for op, n in case["ports"]]
    ps = [Port(op, n) for op, n in case["ports"]]
    ctx.note(len(set(vals)) >= 3, str(vals))
    for p, v in zip(ps, vals):
        for q, w in zip(ps, vals):
            with ctx.sut(f"comparing {p} and {q}"):
                ctx.eq(f"{p} == {q}", p == q, v == w)
                ctx.eq(f"{p} != {q}", p != q, v != w)
                ctx.eq(f"one of <, =, > between {p} and {q}", [p < q, p == q, p > q].count(True), 1)
                ctx.eq(f"{p} <= {q}", p <= q, p < q or p == q)
                ctx.eq(f"{p} >= {q}", p >= q, not p < q)
                ctx.eq(f"{p} > {q} and {q} < {p}", p > q, q < p)
                if v == w:
                    ctx.eq(f"hash of equal ports {p} and {q}", hash(p), hash(q))
                for r in ps:
                    ctx.true(f"{p} < {q} < {r} is transitive", not (p < q and q < r) or p < r)
        with ctx.sut(f"comparing {p} with none"):
            ctx.true("no port is equal to None", p != None and not p == None)  # noqa: E711
    with ctx.sut("set and sort of ports"):
        ctx.eq("distinct ports", len(set(ps)), len(set(vals)))
        a, b = sorted(ps), sorted(reversed(ps))
        ctx.eq("sorting does not depend on the order given", [(p.op, p.num) for p in a], [(p.op, p.num) for p in b])
        ctx.true("a port is found among its equals", all(Port(op, n) in ps and Port(op, n) in set(ps) for op, n in case["ports"]))
    s, e = case["range"]
    if s.isdigit() and e.isdigit() and int(s) != int(e):
        ctx.label("range-ok" if int(s) < int(e) else "range-reversed")
        if int(s) < int(e):
            with ctx.sut(f"range {s} {e}"):
                r = PortRange(s, e)
            ctx.eq("bounds of the range", [str(r.start), str(r.stop)], [s, e])
        else:
            ctx.must_raise(f"range {s} {e}", PortRange, s, e)


SUBS = [
    Sub("table", lookups, lookup, 600, 10000, explicit=all_lookups),
    Sub("asa-words", lambda: words("asa"), check_words, 160, 8000, explicit=lambda: all_words("asa")),
    Sub("ios-words", lambda: words("ios"), check_words, 100, 6000, explicit=lambda: all_words("ios")),
    Sub("asa-wrong", lambda: wrong("asa").filter(lambda c: c is not None), check_wrong, 800, 20000),
    Sub("ios-wrong", lambda: wrong("ios").filter(lambda c: c is not None), check_wrong, 500, 12000),
    Sub("order", ports, check_order, 800, 20000),
]
