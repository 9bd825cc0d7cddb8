"""ASA/FWSM definitions (names, objects, groups, time ranges, interfaces) come out as written."""
from vlib import asa, big, observe, parse
from vlib.core import Sub

ID = "P05"
RULE = (
    "Hypothesis draws an ASA/FWSM configuration dominated by definitions (names, network/service objects, the five kinds "
    "of object-group with nesting, time-ranges, interfaces, access-groups), prints it, parses it and compares every "
    "definition and its members with the items. Non-trivial: at least three definitions of at least two kinds."
)
DEFS = ("name", "nobj", "sobj", "ngrp", "sgrp", "tgrp", "igrp", "pgrp", "time", "iface")


def check(case, ctx):
    kinds = [it["k"] for it in case["items"] if it["k"] in DEFS]
    ctx.label(*kinds)
    for it in case["items"]:
        for m in it.get("ms") or []:
            ctx.label(it["k"] + "-member-" + m[0])
    if any(it["k"] == "ag" for it in case["items"]):
        ctx.label("access-group")
    ctx.note(len(kinds) >= 3 and len(set(kinds)) >= 2, asa.text(case))
    with ctx.sut("parsing a valid configuration"):
        c = parse.asa(asa.text(case))
        got = observe.definitions(c)
    ctx.eq("definitions", got, asa.definitions(case))


SUBS = [
    Sub("definitions", lambda: asa.config(max_rules=2, max_defs=10, min_rules=0), check, 500, 16000),
    Sub("network", lambda: asa.config(max_rules=1, max_defs=14, min_rules=0, services=False, times=False), check, 300, 8000),
    Sub("big", lambda: big.grown("asa", asa.config(max_rules=1, max_defs=5, min_rules=1, ifaces=False), ways=("nest", "members", "fan")), check, 24, 900),
]
