"""ASA NAT statements come out of the parser as written."""
from vlib import asa, big, observe, parse
from vlib.core import Sub

ID = "P17"
RULE = (
    "Hypothesis draws an ASA configuration with up to 8 NAT statements: twice NAT (static and dynamic; objects, groups, "
    "any, pat-pool and interface as real or mapped end; fallback; destination; port translation with service objects; "
    "position; options; description) and object NAT (address, network, object, group, pat-pool, interface; fallback; "
    "port translation; options; with or apart from the object's definition). Every section's entries are compared field "
    "by field, in order, with what was drawn. Non-trivial: at least two NAT statements."
)


def check(case, ctx):
    text = asa.text(case)
    n = 0
    for it in case["items"]:
        if it["k"] in ("nat", "onat"):
            n += 1
            ctx.label(f"{it['k']}-{it['type']}", "mapped-" + it["mapped"][0])
            if it.get("service"):
                ctx.label(f"{it['k']}-service")
            if it.get("dst"):
                ctx.label("destination-" + it["dst"][0][0])
            if it.get("def"):
                ctx.label("inline")
            if it.get("fallback"):
                ctx.label("fallback")
            if it.get("pos"):
                ctx.label("after-auto")
    ctx.note(n >= 2, "\n".join(l for it in case["items"] if it["k"] in ("nat", "onat") for l in asa.lines(it)))
    with ctx.sut("parsing a valid configuration"):
        c = parse.asa(text)
        got = observe.nats(c)
        defs = observe.definitions(c)
    ctx.eq("NAT entries", got, asa.nats(case))
    ctx.eq("definitions next to the NAT", defs["nobjs"], asa.definitions(case)["nobjs"])


SUBS = [
    Sub("big", lambda: big.more_nat(asa.config(nat=6, max_rules=1, max_defs=5, services=False, times=False, kinds=("extended",), remarks=False, nat_svc=True)), check, 40, 1200),
    Sub("nat", lambda: asa.config(nat=8, max_rules=1, max_defs=6, services=False, times=False, kinds=("extended",), remarks=False, nat_svc=True), check, 900, 25000),
    Sub("mixed", lambda: asa.config(nat=4, max_rules=3, max_defs=10), check, 200, 6000),
]
