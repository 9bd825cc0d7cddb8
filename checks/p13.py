"""Unrelated statements and layout do not change the access control content."""
from hypothesis import strategies as st

from vlib import asa, gen, ios, observe, parse, pf
from vlib.core import Sub

ID = "P13"
RULE = (
    "Hypothesis draws a configuration and inserts statements the tool does not interpret between its statements: other "
    "commands with indented sub-lines that look like access control, comments and separators, blank lines, ethertype "
    "lists, banners with all delimiters, the tail of an IOS configuration, trailing blanks (ASA), XML comments, white space "
    "and unknown sections (pfSense). Rules, definitions, NAT entries must be those of the configuration without the "
    "insertions. Non-trivial: the configuration has a rule and at "
    "least two insertions, one of which holds text that looks like access control."
)

LOOKALIKE = [
    "access-list A extended permit ip any any",
    "access-list 101 permit ip any any",
    "permit ip any any",
    "10 deny tcp any any eq 80",
    "object network evil",
    "object-group network evil",
    "host 10.9.9.9",
    "subnet 10.0.0.0 255.0.0.0",
    "network-object host 10.9.9.9",
    "group-object evil",
    "nat (inside,outside) static 10.9.9.9",
    "nat (any,any) source static any any",
    "ip address 10.9.9.9 255.255.255.0",
    "ip access-group A in",
    "description evil",
    "nameif evil",
    "remark evil",
    "name 10.9.9.9 evil",
    "hostname evil",
    "ip access-list extended EVIL",
    "sequence 10 permit ipv6 any any",
    "interface Vlan666",
    "ip route 0.0.0.0 0.0.0.0 10.9.9.9",
]

ASA_PLAIN = [
    ": Saved", ":", "!", "! end", "aaa authentication ssh console LOCAL", "arp timeout 14400", "asdm image disk0:/asdm.bin", "auth-prompt prompt hi", "boot system disk0:/a.bin",
    "clock timezone CET 1", "console timeout 0", "command-alias exec h help", "Cryptochecksum:0123456789abcdef", "dhcpd address 10.1.1.1-10.1.1.9 inside", "dhcprelay timeout 60",
    "dns-guard", "enable password x encrypted", "established tcp 4000 0", "failover", "failover lan unit primary", "firewall transparent", "flow-export destination inside 10.1.1.1 2055",
    "fragment chain 1 outside", "ftp mode passive", "global (outside) 1 interface", "http 10.0.0.0 255.0.0.0 inside", "icmp permit any inside", "icmp unreachable rate-limit 1 burst-size 1",
    "ip local pool vpn 10.1.1.1-10.1.1.9 mask 255.255.255.0", "ipv6 route outside ::/0 2001:db8::1", "ip verify reverse-path interface outside", "logging enable", "logging host inside 10.1.1.1",
    "mac-address auto", "management-access inside", "monitor-interface inside", "mtu inside 1500", "multicast-routing", "names", "no pager", "no object network web", "no names",
    "no access-list A extended permit ip any any", "no object-group network web", "no nat (inside,outside) source static any any", "ntp server 10.1.1.1", "pager lines 24", "passwd x encrypted",
    "password-policy lifetime 90", "privilege cmd level 3 mode exec command access-list", "prompt hostname context", "resource acl-partition 12", "route inside 10.0.0.0 255.0.0.0 10.1.1.1 1",
    "same-security-traffic permit inter-interface", "service resetinbound", "service-policy global_policy global", "snmp-server host inside 10.1.1.1 community x", "ssl trust-point x outside",
    "static (inside,outside) 10.2.2.2 10.1.1.1 netmask 255.255.255.255", "sysopt connection permit-vpn", "telnet timeout 5", "terminal width 80", "tftp-server inside 10.1.1.1 x",
    "threat-detection basic-threat", "timeout xlate 3:00:00", "tls-proxy maximum-session 10", "url-cache dst 128", "user-identity default-domain LOCAL", "virtual telnet 10.1.1.1",
    "xlate per-session deny tcp any4 any4", "access-list E ethertype permit bpdu", "access-list ether ethertype deny any",
    "app-agent heartbeat interval 1000", "arp-inspection outside enable", "eou clientless username x", "hpm topN enable", "mac-address-table aging-time 5", "nat-control", "nat-control ",
    "service-module ips keepalive-counter 4", "smtp-server 10.1.1.1", "tunnel-group-map default-group x", "vpdn group x request dialout pppoe", "vpn-group-policy x", "xlate-bypass", "failover timeout -1",
    "ssh 10.0.0.0 255.0.0.0 inside", "license smart", "dns domain-lookup inside", "nac-policy x nac-framework", "vpn load-balancing", "call-home reporting anonymous", "sla monitor schedule 1 life forever start-time now",
    "crypto ipsec ikev1 transform-set x esp-aes esp-sha-hmac", "crypto map m 10 match address A", "username joe password x encrypted privilege 15", "aaa-server X (inside) host 10.1.1.1",
]
ASA_SUB = [
    "aaa-server X protocol radius", "class-map inspection_default", "crypto map m 10 match address A", "crypto ca certificate chain x", "dns server-group DefaultDNS",
    "dynamic-access-policy-record D", "group-policy G attributes", "ldap attribute-map X", "license smart", "nac-policy x nac-framework", "policy-map type inspect dns preset",
    "router ospf 1", "sla monitor 1", "snmp-map x", "tcp-map x", "tunnel-group X type remote-access", "username joe attributes", "webvpn", "call-home",
    "dns server-group x", "vpn load-balancing", "ssh stricthostkeycheck x",
]
IOS_PLAIN = [
    "!", "! comment", ":", "aaa new-model", "alias exec x show access-list 101", "arp 10.1.1.1 0000.0000.0001 ARPA", "boot-start-marker", "boot-end-marker", "boot system flash",
    "bridge irb", "clock timezone CET 1", "cts logging", "Current configuration : 1234 bytes", "define interface-range x Vlan1", "diagnostic bootup level minimal",
    "dialer-list 1 protocol ip permit", "enable secret 5 x", "errdisable recovery cause all", "file prompt quiet", "hw-module ip", "isdn switch-type basic-net3", "license udi pid x sn y",
    "lldp run", "logging host 10.1.1.1", "login block-for 60", "mac-address-table aging-time 300", "memory free low-watermark", "mls qos", "multilink bundle-name authenticated",
    "no ip http server", "no access-list 101", "no ip access-list extended X", "no ip route 0.0.0.0 0.0.0.0 10.1.1.1", "no ip domain lookup", "platform ip features", "port-channel load-balance src-dst-ip",
    "power redundancy-mode combined", "resource policy", "rmon event 1", "security passwords min-length 8", "switch 1 provision x", "service timestamps log datetime", "snmp-server community x RO 10",
    "spanning-tree mode pvst", "system mtu routing 1500", "username joe privilege 15 secret 5 x", "vtp mode off", "ip cef", "ip inspect name x tcp", "ip domain lookup", "ip domain list x.y",
    "ip name-server 10.1.1.1", "ip http access-class 10", "ip nat inside source list 101 interface Vlan1 overload", "ip nat pool p 10.1.1.1 10.1.1.9 netmask 255.255.255.0", "ip subnet-zero",
    "ip dhcp excluded-address 10.1.1.1 10.1.1.9", "ip tcp synwait-time 5", "ip scp server enable", "ip ssh version 2", "ip classless", "ip forward-protocol nd", "ip flow-export version 5",
    "ip multicast-routing", "ip host www 10.1.1.1", "ip ftp username x", "ip default-gateway 10.1.1.1", "ip prefix-list p seq 5 permit 10.0.0.0/8", "ip pim rp-address 10.1.1.1 10",
    "ip tftp source-interface Vlan1", "ip route vrf x 10.0.0.0 255.0.0.0 10.1.1.1", "ip as-path access-list 1 permit .*", "ipv6 unicast-routing", "ipv6 nd raguard policy x", "ipv6 route ::/0 2001:db8::1",
    "ipv6 prefix-list p seq 5 permit 2001:db8::/32", "dial-peer voice 1 pots", "encryption mode x", "firewall multiple-vlan-interfaces", "mmi polling-interval 60", "rtr responder", "wism service-vlan 1",
    "Using 1234 out of 5678 bytes", "snmp mib persist x", "login", "switch virtual domain 1", "ip ips notify SDEE", "ip flow-cache timeout active 1", "ip accounting-threshold 100", "ip routing",
    "ip vrf X", "ip ssh time-out 60", "ip sla schedule 1 life forever", "crypto isakmp key x address 10.1.1.1", "key config-key 1 x", "transceiver type all", "vpdn enable", "vlan internal allocation policy ascending",
    "mac-address 1", "logging 10.1.1.1", "ipv6 ipv6 x", "ip domain-name x", "arp 10.1.1.1 0000.0000.0001 ARPA", "define interface-range y Vlan2", "isdn x", "file verify auto", "control-plane", "redundancy", "archive",
]
IOS_SUB = [
    "appfw policy-name x", "archive", "call-home", "class-map match-all x", "control-plane", "crypto pki certificate chain x", "crypto isakmp policy 1", "dot11 ssid x", "key chain x",
    "policy-map p", "redundancy", "route-map m permit 10", "router bgp 65000", "router ospf 1", "transceiver type all", "vlan 10", "vpdn enable", "vrf definition X", "ip vrf X", "ip sla 1",
    "ip dhcp pool P", "ip dhcp pool 10.1", "ip ssh pubkey-chain", "key chain y", "ip slb serverfarm x", "ip flow-aggregation cache as", "ip flow-top-talkers", "ipv6 ipv6 x",
]

BANNER_DELIMS = ["^C", "#", "@", "%", "$", "~", "|", "^", "\x03", "*", "]", "\\", "-", "c", "§", "ä", "€", "\U0001f512"]


@st.composite
def subline(draw):
    l = " " * draw(st.sampled_from([1, 1, 2, 4, 9])) + draw(st.one_of(st.sampled_from(LOOKALIKE), gen.freetext()))
    if draw(st.integers(0, 15)) == 0:
        # a line of any length
        l = (l + " ") * draw(st.integers(2, 9))
        l = (l * (1 + 4000 // len(l)))[: draw(st.sampled_from([80, 127, 132, 255, 256, 512, 1023, 1024, 2048, 4096]))].rstrip()
    return l


@st.composite
def noise(draw, fmt):
    """Lines that mean nothing to the tool, now and then hundreds of them."""
    ls = draw(few(fmt))
    if draw(st.integers(0, 199)) or ls[0].startswith("banner"):
        return ls
    n = draw(st.sampled_from([20, 64, 130, 300]))
    if len(ls) > 1 and ls[-1].startswith(" ") and draw(st.booleans()):
        return ls[:1] + (ls[1:] * n)[:n]
    return (ls * n)[:n]


@st.composite
def few(draw, fmt):
    k = draw(st.integers(0, 9))
    if k <= 1:
        return [draw(st.sampled_from(["!", "! ", ": ", ":", "! " * 3])) + draw(st.sampled_from(LOOKALIKE))]
    if k == 2:
        return [""] * draw(st.integers(1, 2))
    if k in (3, 4) and fmt == "ios":
        d = draw(st.sampled_from(BANNER_DELIMS))
        body = "\n".join(draw(st.lists(st.one_of(st.sampled_from(LOOKALIKE), gen.freetext(), st.just(""), st.just("!")), max_size=4)))
        if d == "^C":
            body = body.replace("^C", "^c") + draw(st.sampled_from(["", "\n", "\n", "^", "^^"]))
        else:
            body = body.replace(d, "") + draw(st.sampled_from(["", "\n", "\n"]))
            if d == "^" and body.startswith("C"):
                body = "\n" + body
        return ("banner motd " + d + body + d).split("\n")
    if k <= 6:
        subs = draw(st.lists(subline(), max_size=4))
        return [draw(st.sampled_from(ASA_SUB if fmt == "asa" else IOS_SUB))] + subs
    return [draw(st.sampled_from(ASA_PLAIN if fmt == "asa" else IOS_PLAIN))]


TAIL = ["line con 0", " exec-timeout 5 0", "line vty 0 4", " access-class 10 in", "end", "ntp server 10.1.1.1", "access-list 101 permit ip any any"]


@st.composite
def text_cases(draw, fmt):
    if fmt == "asa":
        cfg = draw(asa.config(max_rules=6, max_defs=6, nat=2))
    else:
        cfg = draw(ios.config(acls=(1, 3), max_defs=3, n_ifaces=(0, 2), routes=2, max_entries=3))
    n = len(cfg["items"])
    ins = draw(st.lists(st.tuples(st.integers(0, n), noise(fmt)).map(list), min_size=1, max_size=6))
    return {
        "cfg": cfg,
        "ins": ins,
        "tail": draw(st.integers(0, len(TAIL))) if fmt == "ios" and draw(st.booleans()) else 0,
        "blank": draw(st.sampled_from(["", "", " ", "  ", "\t"])) if fmt == "asa" else "",
    }


def build(fmt, case):
    mod = asa if fmt == "asa" else ios
    items = case["cfg"]["items"]
    out = []
    for i in range(len(items) + 1):
        for at, ls in case["ins"]:
            if at == i:
                out += ls
        if i < len(items):
            ls = mod.lines(items[i])
            if case["blank"] and items[i]["k"] in ("rule", "ag", "agg", "nat") and not items[i].get("desc"):
                ls = ls[:-1] + [ls[-1] + case["blank"]]
            out += ls
            if case["cfg"].get("sep"):
                out.append("!")
    out += TAIL[: case["tail"]]
    return "\n".join(out) + "\n"


def looks(ls):
    return any(x in l for l in ls for x in LOOKALIKE)


def text_check(fmt):
    mod = asa if fmt == "asa" else ios
    parser = parse.asa if fmt == "asa" else parse.ios

    def check(case, ctx):
        t = build(fmt, case)
        for _, ls in case["ins"]:
            ctx.label("sub-lines" if any(l.startswith(" ") for l in ls) else "banner" if ls[0].startswith("banner") else "blank" if ls == [""] * len(ls) else "comment" if ls[0][:1] in "!:" else "command")
        with ctx.sut("without the insertions"):
            want = observe.snapshot(parser(mod.text(case["cfg"])))
        with ctx.sut("with the insertions"):
            got = observe.snapshot(parser(t))
        ctx.eq(f"content after the insertions\n{t}", observe.deep(got, str.strip), observe.deep(want, str.strip))
        ctx.note(want["rules"] and len(case["ins"]) >= 2 and any(looks(ls) for _, ls in case["ins"]), t[:1500])

    return check


# one configuration of each format with a statement of every interpreted kind, and every command in front of each of its
# statements: what the random insertions reach by chance only
BASE = {
    "asa": """hostname fw
domain-name example.org
interface Vlan1
 nameif inside
 ip address 10.1.1.1 255.255.255.0 standby 10.1.1.2
name 10.1.1.7 web
time-range T
 absolute start 00:00 1 January 2020 end 23:59 31 December 2030
object network n1
 subnet 10.2.0.0 255.255.0.0
 description d
object service s1
 service tcp destination eq 80
object-group network g0
 network-object 10.3.0.0 255.255.0.0
object-group network g1
 network-object host web
 network-object object n1
 group-object g0
object-group service h1 tcp
 port-object eq 22
object-group protocol p1
 protocol-object udp
object-group icmp-type i1
 icmp-object echo
access-list A remark first
access-list A extended permit tcp object-group g1 object n1 object-group h1 time-range T
access-list A extended deny ip any any log
access-list B extended permit udp any host 10.1.1.9 eq 53
access-list S standard permit 10.0.0.0 255.0.0.0
access-list S standard deny any
access-group A in interface inside
nat (inside,any) source static n1 n1
object network n2
 host 10.4.4.4
 nat (inside,any) static 10.5.5.5
""",
    "ios": """version 15.0
hostname sw
ip domain-name example.org
object-group network g1
 host 10.1.1.7
 10.2.0.0 255.255.0.0
object-group service h1
 tcp destination eq 80
interface Vlan1
 description x
 ip address 10.1.1.1 255.255.255.0
 ip access-group 101 in
interface Vlan2
 ip address 10.2.1.1 255.255.255.0
 ipv6 traffic-filter V6 out
ip access-list extended E
 permit tcp object-group g1 any eq 80
 deny ip any any log
ip access-list standard S
 permit 10.0.0.0 0.255.255.255
ip access-list standard 10
 permit any
access-list 20 permit host 10.1.1.1
access-list 101 permit udp any any eq domain
access-list 101 deny ip any 10.1.0.0 0.0.255.255
ipv6 access-list V6
 sequence 10 permit ipv6 any any
ip route 10.9.0.0 255.255.0.0 10.1.1.9
ip route 0.0.0.0 0.0.0.0 10.2.1.9
""",
}


def commands(fmt):
    plain, sub = (ASA_PLAIN, ASA_SUB) if fmt == "asa" else (IOS_PLAIN, IOS_SUB)
    out = [[c] for c in plain]
    for i, c in enumerate(sub):
        n = len(LOOKALIKE)
        out += [[c], [c, " " + LOOKALIKE[i % n], "  " + LOOKALIKE[(i * 7 + 3) % n]]]
    return [{"fmt": fmt, "ins": c} for c in out]


@st.composite
def command_pairs(draw):
    fmt = draw(st.sampled_from(["asa", "ios"]))
    return {"fmt": fmt, "ins": draw(st.lists(noise(fmt), min_size=1, max_size=3).map(lambda ls: [l for x in ls for l in x]))}


def command_check(case, ctx):
    base = BASE[case["fmt"]]
    out = []
    for l in base.split("\n"):
        if not l.startswith(" ") and l != "access-list A extended permit tcp object-group g1 object n1 object-group h1 time-range T":
            out += case["ins"]
        out.append(l)
    t = "\n".join(out)
    parser = parse.asa if case["fmt"] == "asa" else parse.ios
    with ctx.sut("without the insertions"):
        want = observe.snapshot(parser(base))
    with ctx.sut("with the insertions"):
        got = observe.snapshot(parser(t))
    ctx.eq(f"content after the insertions\n{t}", observe.deep(got, str.strip), observe.deep(want, str.strip))
    ctx.label(case["fmt"])
    ctx.note(len(want["rules"]) > 0, "\n".join(case["ins"]))


PF_SECTIONS = [
    "<nat><outbound><rule><source><any/></source><destination><any/></destination><interface>wan</interface></rule></outbound><rule><type>pass</type></rule></nat>",
    "<dhcpd><lan><range><from>10.1.1.1</from><to>10.1.1.9</to></range><enable/></lan></dhcpd>",
    "<installedpackages><config><aliases><alias><name>evil</name><type>host</type><address>10.9.9.9</address></alias></aliases></config></installedpackages>",
    "<backup><filter><rule><type>pass</type><interface>lan</interface><source><any/></source><destination><any/></destination><descr/></rule></filter></backup>",
    "<syslog><interfaces><lan><descr>evil</descr></lan></interfaces></syslog>",
    "<ppps/>",
    "<staticroutes><route><network>10.0.0.0/8</network><gateway>x</gateway><interface>lan</interface></route></staticroutes>",
    "<Filter><rule><type>pass</type></rule></Filter>",
    "<gateways><gateway_item><interface>wan</interface><gateway>dynamic</gateway></gateway_item></gateways>",
    "<rule><type>pass</type><interface>lan</interface><source><any/></source><destination><any/></destination><descr/></rule>",
    "<alias><name>evil</name><type>host</type><address>10.9.9.9</address></alias>",
]
PF_COMMENTS = ["<!-- -->", "<!-- <rule><type>pass</type></rule> -->", "<!-- </filter> -->", "<!--<alias><name>evil</name></alias>-->", "\n\n", "   ", "\t\n", "<?pi x?>"]


@st.composite
def pf_cases(draw):
    cfg = draw(pf.config(max_rules=5, max_aliases=4))
    return {
        "cfg": cfg,
        "sec": draw(st.lists(st.tuples(st.integers(0, 40), st.sampled_from(PF_SECTIONS)).map(list), max_size=3)),
        "com": draw(st.lists(st.tuples(st.integers(0, 400), st.sampled_from(PF_COMMENTS)).map(list), min_size=1, max_size=8)),
    }


def structural_gaps(t):
    """Places between elements where the parent holds no text."""
    out = []
    i = t.index("\n") + 1
    while True:
        i = t.find("><", i)
        if i < 0:
            return out
        # <tag></tag> or text around CDATA is not white space only
        left = t[t.rfind("<", 0, i) : i + 1]
        if not t[i + 1 :].startswith("<![CDATA[") and not left.endswith("]]>"):
            out.append(i + 1)
        i += 1


def pf_check(case, ctx):
    t = pf.text(case["cfg"])
    # sections go directly below the root
    marks = [m + 1 for m in [i for i, c in enumerate(t) if c == "\n"] if t[m + 1 :].startswith(("<system", "<interfaces>", "<aliases>", "<filter>", "<revision", "<unbound", f"</{case['cfg']['root']}>"))]
    edits = [(marks[i % len(marks)], s) for i, s in case["sec"]]
    gaps = structural_gaps(t)
    edits += [(gaps[i % len(gaps)], s) for i, s in case["com"]]
    new = t
    for at, s in sorted(edits, key=lambda e: -e[0]):
        new = new[:at] + s + new[at:]
    with ctx.sut("without the insertions"):
        want = observe.snapshot(parse.pf(t))
    with ctx.sut(f"with the insertions\n{new}\n"):
        got = observe.snapshot(parse.pf(new))
    ctx.eq(f"content after the insertions\n{new}", got, want)
    ctx.label(*["section" for _ in case["sec"][:1]], *{"comment" if s.startswith("<!") else "pi" if s.startswith("<?") else "space" for _, s in case["com"]})
    ctx.note(want["rules"] and len(edits) >= 2 and any("rule" in s or "alias" in s for _, s in edits), new[:1500])


SUBS = [
    Sub("commands", command_pairs, command_check, 400, 20000, explicit=lambda: commands("asa") + commands("ios")),
    Sub("asa", lambda: text_cases("asa"), text_check("asa"), 500, 10000),
    Sub("ios", lambda: text_cases("ios"), text_check("ios"), 600, 10000),
    Sub("pfsense", pf_cases, pf_check, 700, 20000),
]
