"""IOS interfaces, VLAN trunks, routes and access-list bindings come out as written."""
from vlib import big, ios, observe, parse
from vlib.core import Sub

ID = "P07"
RULE = (
    "Hypothesis draws IOS configurations with interfaces (addresses, secondary addresses, IPv6, access-group and "
    "traffic-filter bindings, trunk VLAN lists with `add`), static routes whose gateway is an interface or an address "
    "at and around the bounds of connected networks, and access lists; the parse is compared with the items. "
    "Non-trivial: an interface with at least two details and a route, a binding or a trunk."
)


def check(case, ctx):
    ifs = [it for it in case["items"] if it["k"] == "iface"]
    rts = [it for it in case["items"] if it["k"] == "route"]
    kinds = {d[0] if d[0] != "ag" else "ag-" + d[1] for i in ifs for d in i["d"]} | {"sw-" + d[1] for i in ifs for d in i["d"] if d[0] == "sw"}
    ctx.label(*kinds)
    want = ios.interfaces(case)
    if rts:
        ctx.label("route-" + rts[0]["gw"][0])
    if any(r["routes"] for r in want["ifaces"].values()):
        ctx.label("route-attached")
    ctx.note(any(len(i["d"]) >= 2 for i in ifs) and (rts or want["binds"] or "sw-set" in kinds), ios.text(case))
    with ctx.sut("parsing a valid configuration"):
        c = parse.ios(ios.text(case))
        got = observe.ios_interfaces(c)
        head = {"hostname": c.hostname, "domain": c.domainname}
    ctx.eq("interfaces, routes, bindings", got, want)
    ctx.eq("host and domain name", head, ios.header(case))


SUBS = [
    Sub("big", lambda: big.more_ifaces(ios.config(acls=(1, 2), max_defs=0, n_ifaces=(1, 3), routes=3, max_entries=1)), check, 40, 1200),
    Sub("interfaces", lambda: ios.config(acls=(1, 2), max_defs=1, n_ifaces=(1, 4), routes=4, max_entries=2), check, 700, 20000),
]
