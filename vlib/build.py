"""netmodel specs -> acltk objects, through the public constructors."""
from acltk.aclObjects import (
    Network,
    NetworkAny,
    NetworkAny4,
    NetworkAny6,
    NetworkGroup,
    NetworkHost,
    NetworkInterface,
    NetworkObject,
    NetworkWildcard,
)

from vlib import netmodel as nm


def obj(s):
    k = s[0]
    if k == "host":
        return NetworkHost(s[1])
    if k == "net":
        return Network(s[1], s[2])
    if k == "wild":
        return NetworkWildcard(s[1], s[2])
    if k == "any":
        return NetworkAny()
    if k == "any4":
        return NetworkAny4()
    if k == "any6":
        return NetworkAny6()
    if k == "iface":
        return NetworkInterface(s[1])
    if k == "grp":
        g = NetworkGroup(s[1], "")
        for m in s[2]:
            g.add(obj(m))
        return g
    if k == "obj":
        n, a = s[1], s[2]
        if a is None:
            return NetworkObject(n, "")
        if a[0] == "host":
            return NetworkObject(n, "", type="host", address=a[1])
        if a[0] == "net":
            return NetworkObject(n, "", type="subnet", address=a[1], mask=a[2])
        if a[0] == "range":
            return NetworkObject(n, "", type="range", start=a[1], stop=a[2])
        if a[0] == "fqdn":
            return NetworkObject(n, "", type="fqdn", fqdn=a[2], limit=a[1])
    raise AssertionError(s)
