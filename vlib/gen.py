"""Hypothesis strategies shared by the checks: addresses in a deliberately small
world (so that overlaps, adjacency and nesting happen), names that share
prefixes, network specs for vlib.netmodel."""
import ipaddress

from hypothesis import strategies as st

from vlib import netmodel as nm

V4_BASES = [nm.ip(x)[1] for x in ("10.1.0.0", "10.1.2.0", "10.1.2.128", "192.168.0.0", "172.16.5.0", "0.0.0.0", "255.255.255.0", "128.0.0.0", "127.255.255.0")]
V6_BASES = [nm.ip(x)[1] for x in ("2001:db8::", "2001:db8:0:1::", "::", "fe80::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ff00", "::10.1.2.0", "::ffff:10.1.2.0")]


@st.composite
def v4_int(draw):
    if draw(st.integers(0, 9)) == 0:
        return draw(st.integers(0, nm.MAX[4]))
    base = draw(st.sampled_from(V4_BASES))
    off = draw(st.one_of(st.integers(0, 9), st.integers(0, 255), st.sampled_from([127, 128, 255, 256, 511, 512, 1024])))
    return min(base + off, nm.MAX[4])


@st.composite
def v6_int(draw):
    if draw(st.integers(0, 9)) == 0:
        return draw(st.integers(0, nm.MAX[6]))
    base = draw(st.sampled_from(V6_BASES))
    off = draw(st.one_of(st.integers(0, 9), st.integers(0, 255), st.sampled_from([1 << 64, 1 << 80, 65535])))
    return min(base + off, nm.MAX[6])


v4 = v4_int().map(lambda i: nm.fmt(4, i))
v6 = v6_int().map(lambda i: nm.fmt(6, i))


SPELLINGS = 6


def spell(text, form):
    """An IPv6 address in one of its written forms (IPv4 ones have one)."""
    a = ipaddress.ip_address(text)
    if a.version == 4:
        return text
    form %= SPELLINGS
    if form == 1:
        return a.exploded
    if form == 2:
        return str(a).upper()
    full = ["%x" % int(p, 16) for p in a.exploded.split(":")]
    if form == 3:
        return ":".join(full)
    if form == 4:
        # the last 32 bits as an IPv4 address; :: for leading zeros
        quad = str(ipaddress.IPv4Address(int(a) & 0xFFFFFFFF))
        head = full[:6]
        n = next((i for i, x in enumerate(head) if x != "0"), 6)
        return (":" + ":".join([""] + head[n:]) if n > 1 else ":".join(head)).rstrip(":") + ("::" if n == 6 else ":") + quad
    if form == 5:
        # 0 not compressed at its longest, but at the end
        n = len(full)
        while n and full[n - 1] == "0":
            n -= 1
        return ":".join(full[:n]) + "::" if n < 8 else ":".join(full)
    return str(a)


@st.composite
def v6_text(draw):
    """An address and one of its written forms."""
    return spell(nm.fmt(6, draw(v6_int())), draw(st.integers(0, SPELLINGS - 1)))


V4_PLENS = st.one_of(st.sampled_from([0, 1, 8, 9, 16, 23, 24, 25, 30, 31, 32]), st.integers(0, 32))
V6_PLENS = st.one_of(st.sampled_from([0, 1, 10, 32, 48, 63, 64, 65, 96, 120, 127, 128]), st.integers(0, 128))


@st.composite
def host(draw, v6ok=True):
    if v6ok and draw(st.integers(0, 3)) == 0:
        return ["host", draw(v6)]
    return ["host", draw(v4)]


@st.composite
def net(draw, v6ok=True):
    if v6ok and draw(st.integers(0, 3)) == 0:
        return ["net", draw(v6), draw(V6_PLENS)]
    return ["net", draw(v4), draw(V4_PLENS)]


@st.composite
def written(draw, specs):
    """Specifications with their IPv6 addresses in any written form."""
    s = draw(specs)
    if s[0] in ("host", "net") and ":" in s[1]:
        s = [s[0], spell(s[1], draw(st.integers(0, SPELLINGS - 1)))] + s[2:]
    return s


@st.composite
def addr_range(draw, v6ok=True, big=False):
    if v6ok and draw(st.integers(0, 3)) == 0:
        a = draw(v6_int())
        b = min(a + draw(st.one_of(st.integers(0, 40), st.integers(0, 5000))), nm.MAX[6])
        if big:
            b = max(b, draw(v6_int()))
        return ["range", nm.fmt(6, a), nm.fmt(6, b)]
    a = draw(v4_int())
    b = min(a + draw(st.one_of(st.integers(0, 40), st.integers(0, 5000))), nm.MAX[4])
    if big:
        b = max(b, draw(v4_int()))
    return ["range", nm.fmt(4, a), nm.fmt(4, b)]


@st.composite
def wildcard_int(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return (1 << draw(st.integers(0, 32))) - 1  # hostmask
    if k == 1:
        return nm.MAX[4] & ~((1 << draw(st.integers(0, 32))) - 1)  # looks like a netmask
    if k == 2:
        return draw(st.sampled_from([0, 1, 2, 4, 256, 254, 0xFF00, 0xFE, 0x00FF00FF, 0xFF000000, 0x0000FF00, 0x80000000, 0xFFFFFFFF, 0xFFFFFF00, 0x00010000]))
    # few free bits anywhere
    bits = draw(st.lists(st.integers(0, 31), min_size=1, max_size=4, unique=True))
    w = sum(1 << b for b in bits)
    if k == 3:
        w |= (1 << draw(st.integers(0, 9))) - 1
    return w


wildcard = wildcard_int().map(lambda i: nm.fmt(4, i))


NAME_HEADS = ["a", "A", "web", "Web", "srv", "host", "n", "dmz", "any-x", "tcp-x", "object-y", "eq-1", "x_", "range9", "z.9", "log-srv", "inactive-h", "permit-z", "host-", "WWW-x", "echo-s", "interface-a", "ip-z"]
NAME_TAILS = ["", "", "-1", "-10", "-1-1", "1", "10", "_b", ".b", ".b.c", "-B", "-", "2", "-dmz", "_", "."]


@st.composite
def ident(draw, tail="_-."):
    """A name of any length that begins like no keyword."""
    n = draw(st.sampled_from([0, 1, 2, 7, 14, 15, 16, 30, 31, 32, 62]))
    alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" + tail
    return draw(st.sampled_from("bcjkqvwxyzBQXZ")) + draw(st.text(alphabet, min_size=n, max_size=n))


def some(known, rare=None, one_in=8):
    """Mostly one of the known words, now and then any other."""
    return st.integers(0, one_in - 1).flatmap(lambda k: (rare if rare is not None else ident()) if k == 0 else st.sampled_from(known))


@st.composite
def name(draw):
    if draw(st.integers(0, 11)) == 0:
        return draw(ident())
    return draw(st.sampled_from(NAME_HEADS)) + draw(st.sampled_from(NAME_TAILS)) + draw(st.sampled_from(NAME_TAILS))


@st.composite
def names(draw, min_size=0, max_size=8):
    """Distinct names, many of them prefixes of one another."""
    return draw(st.lists(name(), min_size=min_size, max_size=max_size, unique=True))


TEXT_ALPHABET = "abcxyzABZ\u2028\x85\xa0 0159-_.,:;!/()[]{}#'\"=+*?<>&%$@~^|\\äß€"


# what other formats, or other places, begin with
MARKERS = [
    "<pfsense>", "</pfsense>", "<?xml version=\"1.0\"?><pfsense>", "<opnsense/>", "<filter>", "ASA Version 9.1(2)", "FWSM Version 4.1(5) <context>", ": Saved", "version 15.2", "Cisco IOS Software",
    "hostname fw", "interface Vlan1", "ip access-list extended A", "ipv6 access-list A", "object-group network g", "object network o", "access-list A extended permit ip any any",
    "access-group A in interface inside", "nat (inside,outside) source static any any", "name 10.0.0.1 web", "end", "exit", "quit", "no", "banner motd ^C", "id A union id B", ": end", "inactive", "log", "#pfsense",
]


@st.composite
def freetext(draw, max_size=24, lead_ok=False):
    """A description or remark: no line break, visible at both ends."""
    if draw(st.integers(0, 11)) == 0:
        return draw(st.sampled_from(["", "", "was: ", "see "])) + draw(st.sampled_from(MARKERS)) + draw(st.sampled_from(["", "", " (old)"]))
    s = draw(st.text(TEXT_ALPHABET, max_size=max_size)).strip()
    if s and draw(st.integers(0, 11)) == 0:
        # long, and saying the same again
        s = (s + draw(st.sampled_from([" ", "", ", "]))) * draw(st.integers(2, 12))
        s = s[: draw(st.sampled_from([80, 100, 128, 200, 255, 400]))].strip()
        if draw(st.integers(0, 3)) == 0:
            # of many words
            s = " ".join([s] + [f"w{i}" for i in range(draw(st.sampled_from([20, 70, 140, 300])))])
    return s or draw(st.sampled_from(["x", "allow web", "permit ip any any", "remark", "!", "description foo", "access-list a extended permit ip any any"]))


PORT_NUMS = st.one_of(
    st.sampled_from([0, 1, 9, 10, 22, 80, 99, 100, 443, 999, 1000, 8080, 9999, 10000, 65535]), st.integers(0, 65535)
)


@st.composite
def port_range(draw):
    a = draw(st.integers(0, 65534)) if draw(st.booleans()) else draw(st.sampled_from([0, 9, 80, 99, 999, 9999, 5]))
    b = draw(st.integers(a + 1, 65535)) if draw(st.booleans()) else min(65535, a + draw(st.sampled_from([1, 11, 91, 363, 901])))
    return [str(a), str(b)]
