"""Reference model of address sets, on plain integers.

A *spec* is a JSON list:
  ["host", "1.2.3.4"]            one address
  ["net", "10.0.0.0", 8]         the prefix containing the address
  ["range", "10.0.0.1", "10.0.0.9"]
  ["wild", "10.0.0.1", "0.0.255.0"]   bits set in the 2nd are don't-care
  ["any"] ["any4"] ["any6"] ["iface", name]
  ["obj", name, spec-or-null]    null: object without an address
  ["fqdn", null|"v4"|"v6"]       a name whose address is unknown
  ["grp", name, [spec, ...]]
An address set is a list of atoms: (version, lo, hi), ("w", addr, wildcard)
(IPv4 only) or ("all",).
"""
import ipaddress

MAX = {4: 2**32 - 1, 6: 2**128 - 1}
BITS = {4: 32, 6: 128}


def ip(text):
    a = ipaddress.ip_address(text)
    return a.version, int(a)


def fmt(version, value):
    return str(ipaddress.IPv4Address(value) if version == 4 else ipaddress.IPv6Address(value))


def prefix_bounds(version, value, plen):
    bits = BITS[version]
    host = (1 << (bits - plen)) - 1
    lo = value & ~host & MAX[version]
    return lo, lo | host


def netmask(plen):
    return fmt(4, (MAX[4] << (32 - plen)) & MAX[4])


def hostmask(plen):
    return fmt(4, (1 << (32 - plen)) - 1)


def atoms(spec):
    k = spec[0]
    if k == "host":
        v, a = ip(spec[1])
        return [(v, a, a)]
    if k == "net":
        v, a = ip(spec[1])
        return [(v, *prefix_bounds(v, a, spec[2]))]
    if k == "range":
        v, a = ip(spec[1])
        v2, b = ip(spec[2])
        assert v == v2 and a <= b
        return [(v, a, b)]
    if k == "wild":
        return [("w", ip(spec[1])[1], ip(spec[2])[1])]
    if k in ("any", "iface", "url"):
        return [("all",)]
    if k == "any4":
        return [(4, 0, MAX[4])]
    if k == "any6":
        return [(6, 0, MAX[6])]
    if k == "fqdn":
        return {None: [("all",)], "v4": [(4, 0, MAX[4])], "v6": [(6, 0, MAX[6])]}[spec[1]]
    if k == "obj":
        return [] if spec[2] is None else atoms(spec[2])
    if k == "grp":
        return [a for m in spec[2] for a in atoms(m)]
    raise AssertionError(spec)


def wild_match(a, w, x):
    return (a ^ x) & ~w & MAX[4] == 0


def wild_next(a, w, lo):
    """Smallest x >= lo with x matching (a, w), or None."""
    fixed = ~w & MAX[4]
    base = a & fixed
    if lo > (base | w):
        return None
    if wild_match(a, w, lo):
        return lo
    # longest prefix of lo kept, then one don't-care bit raised, rest minimal
    best = None
    for bit in range(32):
        b = 1 << bit
        if lo & b:
            continue
        # keep lo's bits above `bit`, set this bit, minimal below
        hi = (lo >> (bit + 1)) << (bit + 1) | b
        mask_hi = (MAX[4] >> bit) << bit
        if (hi ^ base) & fixed & mask_hi:
            continue
        x = (hi & mask_hi) | (base & ~mask_hi & MAX[4])
        if x > lo and (best is None or x < best):
            best = x
    return best


def atom_overlap(p, q):
    if p[0] == "all" or q[0] == "all":
        return True
    if p[0] == "w" and q[0] == "w":
        return (p[1] ^ q[1]) & ~p[2] & ~q[2] & MAX[4] == 0
    if q[0] == "w":
        p, q = q, p
    if p[0] == "w":
        if q[0] != 4:
            return False
        x = wild_next(p[1], p[2], q[1])
        return x is not None and x <= q[2]
    return p[0] == q[0] and p[1] <= q[2] and q[1] <= p[2]


def overlap(a, b):
    return any(atom_overlap(p, q) for p in a for q in b)


def contains(ats, version, x):
    for a in ats:
        if a[0] == "all":
            return True
        if a[0] == "w":
            if version == 4 and wild_match(a[1], a[2], x):
                return True
        elif a[0] == version and a[1] <= x <= a[2]:
            return True
    return False


def normal(ats):
    """Canonical union of intervals, per version (no wildcards, no 'all')."""
    out = {}
    for v in (4, 6):
        iv = sorted((lo, hi) for ver, lo, hi in ats if ver == v)
        m = []
        for lo, hi in iv:
            if m and lo <= m[-1][1] + 1:
                m[-1][1] = max(m[-1][1], hi)
            else:
                m.append([lo, hi])
        out[v] = m
    return out
