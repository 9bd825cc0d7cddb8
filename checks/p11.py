"""Malformed or out-of-range access control text is refused, never half-read."""
from hypothesis import strategies as st

from vlib import asa, gen, ios, parse, pf
from vlib import netmodel as nm
from vlib.core import Sub

ID = "P11"
RULE = (
    "Hypothesis draws a valid configuration (checked to parse) and adds one line or element that is wrong in exactly one "
    "place: an octet above 255, a non-contiguous netmask, a prefix length out of range, a port, protocol, ICMP type or "
    "code out of range, a reversed range, a range across IP versions, an unknown keyword, operator, option or XML element, "
    "a missing or a surplus word, an impossible time. Parsing with the format's own parser and with format detection must "
    "raise. The same line with the right value is parsed as a control. Non-trivial: the control was accepted."
)

BAD_OCTET = st.integers(256, 999)


@st.composite
def bad_v4(draw):
    o = [str(draw(st.integers(0, 255))) for _ in range(4)]
    k = draw(st.integers(0, 3))
    if k <= 1:
        o[draw(st.integers(0, 3))] = str(draw(BAD_OCTET))
    elif k == 2:
        o = o[:3]
    else:
        o.append("1")
    return ".".join(o)


@st.composite
def bad_mask(draw):
    """Neither a netmask nor (Python would read it as one) a hostmask."""
    while True:
        m = draw(st.one_of(st.sampled_from([0xFF00FF00, 0xFFFFFF01, 0x00FF0000, 0xFFFF00FF, 0x80000001, 0xFFFFFEFF, 0x7FFFFF00]), st.integers(1, nm.MAX[4] - 1)))
        inv = m ^ nm.MAX[4]
        if m & (m + 1) and inv & (inv + 1):
            return nm.fmt(4, m)


bad_port = st.one_of(st.sampled_from(["65536", "70000", "99999", "655350", "htp", "wwww", "8o", "-1", "", "httpx"]), st.integers(65536, 10**6).map(str))
bad_proto = st.one_of(st.sampled_from(["256", "300", "999", "tpc", "tcpx", "any", "http"]), st.integers(256, 9999).map(str))
bad_icmp = st.one_of(st.sampled_from(["256", "999", "echoo", "pong", "echo-requests"]), st.integers(256, 9999).map(str))
good_port = asa.port_value()


@st.composite
def rev_range(draw):
    a, b = draw(gen.port_range())
    return f"{b} {a}"


@st.composite
def rev_addr(draw):
    a = draw(gen.addr_range(True).filter(lambda r: r[1] != r[2]))
    return f"{a[2]} {a[1]}"


MIXED = st.sampled_from(["10.1.1.1 2001:db8::1", "2001:db8::1 10.1.1.1"])
bad_v6 = st.sampled_from(["2001:db8::1::2", "2001:db8:1:2:3:4:5:6:7", "2001:db8::12345", "2001:db8::g", "1:2:3", ":::", "2001:db8::1%"])
bad_mode = st.sampled_from(["allow", "drop", "permitt", "den", "PERMIT", ""])
bad_op = st.sampled_from(["ge", "le", "==", "eqq", "ne", "="])
junk = st.sampled_from(["foo", "log foo", "inactive bar", "eq 80 eq 81", "any", "permit", "time-range", "log interval", "log interval x", "#", "10.1.1.1"])


P = "access-list A extended permit "


def asa_faults():
    f = []

    def add(kind, fmt, good, bad):
        f.append((kind, fmt, good, bad))

    for fmt in (P + "ip host {} any", P + "ip any host {}", P + "ip {} 255.255.255.0 any", P + "tcp any {} 255.255.0.0 eq 80", "access-list S standard permit host {}", "access-list W webtype deny tcp host {}", "name {} zz", "object network zz\n host {}", "object network zz\n subnet {} 255.255.255.0", "object network zz\n range {} 255.255.255.255", "object-group network zz\n network-object host {}", "object-group network zz\n network-object {} 255.255.255.0"):
        add("address", fmt, gen.v4, bad_v4())
    for fmt in (P + "ip 10.0.0.0 {} any", P + "ip any 10.1.2.0 {} log", "access-list S standard permit 10.0.0.0 {}", "object network zz\n subnet 10.1.1.0 {}", "object-group network zz\n network-object 10.1.1.0 {}"):
        add("netmask", fmt, gen.V4_PLENS.map(nm.netmask), bad_mask())
        add("netmask-octet", fmt, gen.V4_PLENS.map(nm.netmask), bad_v4().filter(lambda m: m.count(".") == 3))
    for fmt in (P + "ip host {} any", "object network zz\n host {}", "object-group network zz\n network-object host {}", "name {} zz", P + "ip any {}/64"):
        add("ipv6", fmt, gen.v6, bad_v6)
    for fmt in (P + "ip 2001:db8::/{} any", "object network zz\n subnet 2001:db8::/{}", "object-group network zz\n network-object 2001:db8::/{}"):
        add("prefix length", fmt, gen.V6_PLENS.map(str), st.integers(129, 999).map(str))
    for fmt in (P + "tcp any any eq {}", P + "udp any gt {} any", P + "tcp any any range 1 {}", P + "tcp any range {} 65535 any", "access-list W webtype permit tcp any eq {}", "object service zz\n service tcp destination eq {}", "object service zz\n service udp source lt {}", "object-group service zz\n service-object tcp destination neq {}", "object-group service zz tcp\n port-object eq {}", "object-group service zz udp\n port-object range 1 {}"):
        add("port", fmt, st.sampled_from(asa.PORT_WORDS) if "range" in fmt else good_port, bad_port)
    for fmt in (P + "tcp any any range {}", P + "udp any range {} any", "object service zz\n service tcp destination range {}", "object-group service zz\n service-object udp source range {}", "object-group service zz tcp\n port-object range {}"):
        add("reversed range", fmt, gen.port_range().map(" ".join), rev_range())
    add("reversed addresses", "object network zz\n range {}", gen.addr_range(True).map(lambda r: f"{r[1]} {r[2]}"), st.one_of(rev_addr(), MIXED))
    for fmt in (P + "{} any any", "object-group service zz\n service-object {}"):
        add("protocol", fmt, st.integers(0, 255).map(str), bad_proto)
    add("protocol", "object service zz\n service {}", st.integers(0, 255).map(str), bad_proto)
    for fmt in (P + "icmp any any {}", P + "icmp6 any any {} log", "object service zz\n service icmp {}", "object-group service zz\n service-object icmp {}", "object-group icmp-type zz\n icmp-object {}"):
        add("icmp type", fmt, asa.icmp_type(), bad_icmp)
    for fmt in (P + "icmp any any echo {}", "object service zz\n service icmp 3 {}"):
        add("icmp code", fmt, st.integers(0, 255).map(str), st.one_of(st.integers(256, 9999).map(str), st.just("x")))
    add("mode", "access-list A extended {} ip any any", st.sampled_from(["permit", "deny"]), bad_mode)
    add("list type", "access-list A {} permit tcp any", st.just("webtype"), st.sampled_from(["extendedd", "Extended", "special", ""]))
    add("operator", P + "tcp any any {} 80", st.sampled_from(["eq", "gt", "lt", "neq"]), bad_op)
    add("surplus words", P + "ip any any {}", st.sampled_from(["log", "inactive", "log warnings interval 5", ""]), junk)
    add("missing words", P + "{}", st.just("ip any any"), st.sampled_from(["", "ip", "ip any", "tcp any eq 80", "tcp any any eq", "tcp any any range 1", "ip host any", "ip 10.1.1.1 any", "object-group any any", "icmp any", "ip object any"]))
    add("group type", "object-group {} zz", st.sampled_from(["network", "protocol", "icmp-type", "service"]), st.sampled_from(["net", "networks", "ip", "Network", "security-x"]))
    add("group protocol", "object-group service zz {}", st.sampled_from(["tcp", "udp", "tcp-udp"]), st.sampled_from(["icmp", "sctp", "tcpudp", "6"]))
    add("group member", "object-group network zz\n {}", st.just("network-object host 10.1.1.1"), st.sampled_from(["network-object", "port-object eq 80", "network-object host", "host 10.1.1.1", "network-objects host 10.1.1.1", "network-object 10.1.1.1", "subnet 10.0.0.0 255.0.0.0"]))
    add("object type", "object {} zz\n host 10.1.1.1", st.just("network"), st.sampled_from(["net", "networks", "service", "user"]))
    for fmt in ("time-range zz\n absolute start {}:00 01 January 2020", "time-range zz\n periodic daily {}:10 to 23:59"):
        add("hour", fmt, st.integers(0, 23).map(str), st.integers(24, 99).map(str))
    add("minute", "time-range zz\n periodic weekend 00:{} to 23:59", st.integers(0, 59).map("{:02d}".format), st.integers(60, 99).map(str))
    add("date", "time-range zz\n absolute end 10:00 {}", st.just("29 February 2024"), st.sampled_from(["30 February 2024", "29 February 2023", "00 May 2020", "31 April 2020", "32 May 2020", "01 Mai 2020", "01 may 2020", "01 13 2020"]))
    add("command", "{}", st.sampled_from(["pager lines 24", "mtu inside 1500"]), st.sampled_from(["access-lists A extended permit ip any any", "objectgroup network x", "permit ip any any", "xaccess-list A extended permit ip any any", "host 10.1.1.1", "<x/>", "hello"]))
    add("nat", "nat (any,any) source {} any any", st.just("static"), st.sampled_from(["fixed", "", "dynamics", "auto"]))
    return f


def ios_faults():
    f = []

    def add(kind, fmt, good, bad):
        f.append((kind, fmt, good, bad))

    E = "ip access-list extended X\n "
    S = "ip access-list standard X\n "
    N = "access-list 101 "
    V = "ipv6 access-list X\n sequence 10 "
    for fmt in (E + "permit ip host {} any", E + "permit ip {} 0.0.0.255 any", E + "permit tcp any {} 0.0.255.0 eq 80", S + "permit {}", S + "deny host {}", S + "permit {} 0.0.0.255", N + "permit ip host {} any", N + "permit ip any {} 0.0.0.255", "access-list 10 permit {} 0.0.0.255", "object-group network zz\n host {}", "object-group network zz\n {} 255.255.255.0"):
        add("address", fmt, gen.v4, bad_v4())
    for fmt in (E + "permit ip 10.0.0.0 {} any", S + "permit 10.0.0.0 {}", N + "permit ip 10.0.0.0 {} any"):
        add("wildcard", fmt, gen.wildcard, bad_v4())
    add("netmask", "object-group network zz\n 10.0.0.0 {}", gen.V4_PLENS.map(nm.netmask), bad_mask())
    for fmt in (V + "permit ipv6 host {} any", V + "permit tcp any {}/64 eq 80"):
        add("ipv6", fmt, gen.v6, bad_v6)
    add("prefix length", V + "permit ipv6 2001:db8::/{} any", gen.V6_PLENS.map(str), st.integers(129, 999).map(str))
    for fmt in (E + "permit tcp any any eq {}", E + "permit udp any lt {} any", N + "permit tcp any any neq {}", V + "permit tcp any any gt {}", "object-group service zz\n tcp destination eq {}"):
        add("port", fmt, good_port, bad_port)
    for fmt in (E + "permit tcp any any range {}", N + "permit udp any range {} any", V + "permit tcp any any range {}", "object-group service zz\n udp source range {}"):
        add("reversed range", fmt, gen.port_range().map(" ".join), rev_range())
    for fmt in (E + "permit {} any any", N + "deny {} any any", V + "permit {} any any", "object-group service zz\n {}"):
        add("protocol", fmt, st.integers(0, 255).map(str), bad_proto)
    for fmt in (E + "permit icmp any any {}", N + "deny icmp any any {} log"):
        add("icmp type", fmt, asa.icmp_type(), bad_icmp.filter(lambda x: True))
    add("icmp code", E + "permit icmp any any echo {}", st.integers(0, 255).map(str), st.integers(256, 9999).map(str))
    add("mode", E + "{} ip any any", st.sampled_from(["permit", "deny"]), bad_mode)
    add("mode", "access-list 10 {} any", st.sampled_from(["permit", "deny"]), bad_mode)
    add("operator", E + "permit tcp any any {} 80", st.sampled_from(["eq", "gt", "lt", "neq"]), bad_op)
    add("list type", "ip access-list {} X\n permit ip any any", st.just("extended"), st.sampled_from(["standards", "ext", "Extended", "special"]))
    add("list number", "access-list {} permit ip any any", st.sampled_from(["100", "150", "199", "2000", "2699"]), st.sampled_from(["200", "700", "99", "2700", "abc", "0"]))
    add("surplus words", E + "permit ip any any {}", st.sampled_from(["log", "fragments", "dscp ef"]), st.sampled_from(["foo", "eq 80 eq 81", "dscp", "permit", "tos", "10.1.1.1"]))
    add("missing words", E + "permit {}", st.just("ip any any"), st.sampled_from(["", "ip", "ip any", "tcp any eq 80", "tcp any any eq", "tcp any any range 1", "ip host any", "object-group any any"]))
    add("group member", "object-group network zz\n {}", st.just("host 10.1.1.1"), st.sampled_from(["hosts 10.1.1.1", "10.1.1.1", "network-object host 10.1.1.1", "port-object eq 80", "subnet 10.0.0.0 255.0.0.0"]))
    add("command", "{}", st.sampled_from(["mls qos", "no ip http server", "ip http server"]), st.sampled_from(["access-lists 101 permit ip any any", "objectgroup network x", "permit ip any any", "host 10.1.1.1", "<x/>", "hello"]))
    return f


# pfSense: whole elements
def prule(src="<any/>", dst="<any/>", extra="", typ="pass"):
    return ("rule", f"<rule><type>{typ}</type><interface>lan</interface><source>{src}</source><destination>{dst}</destination><descr/>{extra}</rule>")


def pf_faults():
    f = []

    def add(kind, make, good, bad):
        f.append((kind, make, good, bad))

    for make in (lambda v: prule(f"<address>{v}</address>"), lambda v: prule(dst=f"<address>{v}</address><port>80</port>")):
        add("address", make, gen.v4, st.one_of(bad_v4(), bad_v6, st.sampled_from(["", "10.1.1.1 ", "www.example.com", "10.1.1.1-10.1.1.9"])))
        add("prefix", make, gen.net().map(lambda n: f"{n[1]}/{n[2]}"), st.one_of(st.integers(33, 999).map(lambda p: f"10.0.0.0/{p}"), st.integers(129, 999).map(lambda p: f"2001:db8::/{p}"), st.sampled_from(["10.0.0.0/", "10.0.0.0/8/8", "/8", "10.0.0.0/255.0.255.0"])))
        add("endpoint element", lambda v, m=make: prule(f"<address>10.1.1.1</address>{v}"), st.just("<port>80</port>"), st.sampled_from(["<not/>", "<not>1</not>", "<adress>10.1.1.1</adress>", "<host>10.1.1.1</host>", "<alias>x</alias>"]))
    add("network", lambda v: prule(f"<network>{v}</network>"), st.just("lan"), st.sampled_from(["lanx", "opt9", "LANX", "la", "lan,wan"]))
    add("reversed range", lambda v: prule(dst=f"<any/><port>{v}</port>"), gen.port_range().map("-".join), gen.port_range().map(lambda r: f"{r[1]}-{r[0]}"))
    add("rule element", lambda v: prule(extra=v), st.sampled_from(["<log/>", "<id/>", "<os/>"]), st.sampled_from(["<not/>", "<schedx/>", "<logg/>", "<source6><any/></source6>", "<foo>1</foo>"]))
    add("filter element", lambda v: ("rule", v), st.just("<separator/>"), st.sampled_from(["<rules/>", "<Rule/>", "<rul><type>pass</type></rul>", "<foo/>"]))
    add("alias type", lambda v: ("alias", f"<alias><name>zz</name><type>{v}</type><address>10.1.1.1/32</address><descr/></alias>"), st.just("network"), st.sampled_from(["networks", "hosts", "url", "Host", ""]))
    add("alias network", lambda v: ("alias", f"<alias><name>zz</name><type>network</type><address>10.1.1.0/24 {v}</address><descr/></alias>"), gen.net().map(lambda n: f"{n[1]}/{n[2]}"), st.one_of(st.integers(33, 999).map(lambda p: f"10.0.0.0/{p}"), bad_v4().map(lambda a: a + "/24"), st.sampled_from(["www.example.com/24", "10.0.0.0/8/8"])))
    add("alias range", lambda v: ("alias", f"<alias><name>zz</name><type>port</type><address>80 {v}</address><descr/></alias>"), gen.port_range().map(":".join), gen.port_range().map(lambda r: f"{r[1]}:{r[0]}"))
    add("document", lambda v: ("wrap", v), st.just("pfsense"), st.sampled_from(["config", "pfSense", "openwrt", "html"]))
    add("xml", lambda v: ("cut", v), st.just(0), st.integers(1, 60))
    return f


FAULTS = {"asa": asa_faults(), "ios": ios_faults(), "pf": pf_faults()}


@st.composite
def cases(draw, fmt):
    faults = FAULTS[fmt]
    kinds = sorted({f[0] for f in faults})
    kind = draw(st.sampled_from(kinds))
    idx = draw(st.sampled_from([i for i, f in enumerate(faults) if f[0] == kind]))
    if fmt == "asa":
        base = draw(asa.config(max_rules=3, max_defs=3))
    elif fmt == "ios":
        base = draw(ios.config(acls=(1, 1), max_defs=2, n_ifaces=(0, 1), routes=0, max_entries=2))
    else:
        base = draw(pf.config(max_rules=3, max_aliases=2, seps=False))
    return {"base": base, "fault": idx, "good": draw(faults[idx][2]), "bad": draw(faults[idx][3]), "at": draw(st.integers(0, 20))}


def build(fmt, case, value):
    kind, make = FAULTS[fmt][case["fault"]][:2]
    if fmt == "pf":
        t = pf.text(case["base"])
        where, x = make(value)
        if where == "rule":
            return t.replace("</filter>", x + "</filter>"), x
        if where == "alias":
            return t.replace("</aliases>", x + "</aliases>"), x
        if where == "wrap":
            r = case["base"]["root"]
            return t.replace(f"<{r}>", f"<{x}>").replace(f"</{r}>", f"</{x}>"), x
        return t[: len(t) - x], f"last {x} characters cut off"
    lines = make.format(value).split("\n")
    mod = asa if fmt == "asa" else ios
    items = list(case["base"]["items"])
    items.insert(case["at"] % (len(items) + 1), {"k": "raw", "lines": lines})
    return mod.text(dict(case["base"], items=items)), "\n".join(lines)


PARSE = {"asa": parse.asa, "ios": parse.ios, "pf": parse.pf}


def accepted(fn, text):
    try:
        fn(text)
    except Exception:
        return False
    return True


def checker(fmt):
    def check(case, ctx):
        ctx.label(FAULTS[fmt][case["fault"]][0])
        good, gline = build(fmt, case, case["good"])
        bad, bline = build(fmt, case, case["bad"])
        with ctx.sut(f"parsing the valid control: {gline}"):
            PARSE[fmt](good)
        ctx.note(True, f"{bline}    (control: {gline})")
        ctx.must_raise(f"{fmt} accepts: {bline}", PARSE[fmt], bad)
        if fmt == "ios" and accepted(parse.asa, bad):
            return  # without its rules an IOS text can be a valid ASA one
        e = ctx.must_raise(f"format detection accepts: {bline}", parse.auto, bad)
        ctx.true("format detection refuses with ValueError", isinstance(e, ValueError), f"got {type(e).__name__} for: {bline}")

    return check


SUBS = [
    Sub("asa", lambda: cases("asa"), checker("asa"), 500, 14000),
    Sub("ios", lambda: cases("ios"), checker("ios"), 400, 9000),
    Sub("pfsense", lambda: cases("pf"), checker("pf"), 600, 12000),
]
