"""pfSense/OPNsense rules, aliases, interfaces and separators come out as stored."""
import os
import time

from vlib import big, observe, parse, pf
from vlib.core import Sub

ID = "P08"
RULE = (
    "Hypothesis draws a pfSense/OPNsense config.xml (host, network, port and urltable aliases, interfaces with their "
    "optN names and descriptions, rules on interfaces and floating, ports, ranges, icmp types, log/disabled, creation "
    "times, separators; sections and elements in any order, text escaped or in CDATA), parses it and compares rules, "
    "aliases, interfaces and names with the drawn values. urltables are `data:` URLs. Non-trivial: at least two rules "
    "and one of alias reference, interface network, floating, separator, port."
)
ASSUMPTIONS = ["rules of one interface are stored next to each other, as pfSense sorts them"]


# times are shown as of the local zone, one that is far from UTC
os.environ["TZ"] = "XYZ-11"
time.tzset()


def check(case, ctx):
    cl = set()
    for r in case["rules"]:
        cl.add(r["type"])
        for s in ("src", "dst"):
            cl.add("addr-" + r[s]["addr"][0])
            if r[s]["port"]:
                cl.add("port-" + r[s]["port"][0])
        if r["if"] == "floating":
            cl.add("floating")
        for f in ("log", "disabled", "icmp"):
            if r[f]:
                cl.add(f)
        if r["if"].startswith("opt"):
            cl.add("optN-rule")
    for a in case["aliases"]:
        cl.add("alias-" + a["t"])
    want = pf.rules(case)
    if any(w["head"] for w in want):
        cl.add("separator")
    ctx.label(*cl)
    ctx.note(len(case["rules"]) >= 2 and cl & {"addr-grp", "addr-ifnet", "floating", "separator", "port-port", "port-range", "port-pgrp"}, pf.text(case))
    for fetch in (False, True):
        with ctx.sut(f"parsing a valid configuration (fetch={fetch})"):
            c = parse.pf(pf.text(case), fetch)
            got = observe.pf_rules(c, want)
            grp = observe.pf_groups(c)
            ifs = observe.pf_interfaces(c)
            host = c.hostname
        ctx.eq("aliases", grp, pf.groups(case, fetch))
        ctx.eq("interfaces", ifs, pf.interfaces(case))
        ctx.eq("rules", got, want)
        ctx.eq("host name", host, f"{case['host']}.{case['domain']}")


SUBS = [Sub("config", lambda: pf.config(), check, 1500, 60000), Sub("big", lambda: big.grown("pf", pf.config(), ways=("members", "rules")), check, 60, 3000)]
