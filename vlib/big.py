"""Configurations of a size: deep nesting, large groups, long rule lists (grown from a drawn small one)."""
import copy

from hypothesis import strategies as st

from vlib import gen
from vlib import netmodel as nm

ASA_KINDS = {"ngrp": "grp", "sgrp": "sgrp", "tgrp": "pgrp", "igrp": "igrp", "pgrp": "prgrp"}
IOS_KINDS = {"ngrp": "grp", "sgrp": "sgrp"}


def leaf(kind, base, i):
    if kind == "ngrp":
        return ["host", nm.fmt(4, (base + i) & nm.MAX[4]), None]
    if kind == "sgrp":
        return ["svc", {"p": "tcp", "dst": ["port", "eq", str((base + i) % 65536)]}]
    if kind == "tgrp":
        return ["port", "eq", str((base + i) % 65536)]
    if kind == "igrp":
        return ["icmp", str((base + i) % 256), None]
    return ["proto", str((base + i) % 256)]


def group(kind, n, ms):
    it = {"k": kind, "n": n, "d": None, "ms": ms}
    if kind == "tgrp":
        it["p"] = "tcp"
    return it


def refer(fmt, cfg, which, n):
    """The first rule that can refers to the group."""
    for it in cfg["items"]:
        if fmt == "asa" and it["k"] == "rule" and it["ext"] == "extended":
            it[which] = ["grp", n]
            return
        if fmt == "ios" and it["k"] == "acl" and it["t"] == "extended" and it["es"]:
            it["es"][0][which] = ["grp", n]
            return


@st.composite
def more_nat(draw, base, total=(40, 200)):
    """Many NAT statements: the drawn ones, over and over in another order."""
    cfg = copy.deepcopy(draw(base))
    own = [it for it in cfg["items"] if it["k"] == "nat"]
    if own:
        n, step = draw(st.integers(*total)), draw(st.sampled_from([1, 2, 3, 5]))
        cfg["items"] += [copy.deepcopy(own[(i // step + i * step) % len(own)]) for i in range(n)]
    return cfg


@st.composite
def more_ifaces(draw, base, total=(12, 70)):
    """Many IOS interfaces and routes: the drawn ones, moved along the address space."""
    cfg = copy.deepcopy(draw(base))
    ifs = [it for it in cfg["items"] if it["k"] == "iface"]
    rts = [it for it in cfg["items"] if it["k"] == "route"]
    n, shift = draw(st.integers(*total)), draw(st.sampled_from([1 << 8, 1 << 12, 1 << 16, 3 << 16]))
    style = draw(st.sampled_from(["Vlan{}", "GigabitEthernet0/{}", "GigabitEthernet0/0.{}", "Tunnel{}"]))
    new = []
    for i in range(n):
        it = copy.deepcopy(ifs[i % len(ifs)])
        it["alias"] = style.format(200 + i)
        for x in it["d"]:
            if x[0] == "ip":
                x[1] = nm.fmt(4, (nm.ip(x[1])[1] + (i + 1) * shift) & nm.MAX[4])
        new.append(it)
    for i in range(n * 2 if rts else 0):
        it = copy.deepcopy(rts[i % len(rts)])
        a = (nm.ip(it["net"][0])[1] + (i + 1) * shift) & nm.MAX[4]
        it["net"][0] = nm.fmt(4, nm.prefix_bounds(4, a, it["net"][1])[0])
        if it["gw"][0] == "ip":
            it["gw"][1] = nm.fmt(4, (nm.ip(it["gw"][1])[1] + (i // len(rts) + 1) * shift) & nm.MAX[4])
        else:
            it["gw"][1] = new[i % n]["alias"]
        new.append(it)
    cfg["items"] += new
    return cfg


@st.composite
def grown(draw, fmt, base, depth=(8, 30), members=(33, 300), rules=(40, 110), fan=(40, 320), ways=("nest", "members", "rules", "fan")):
    cfg = copy.deepcopy(draw(base))
    kinds = ASA_KINDS if fmt == "asa" else IOS_KINDS
    how = draw(st.lists(st.sampled_from(ways), min_size=1, max_size=2, unique=True))
    defs = []
    if "members" in how:
        n, at, step = draw(st.integers(*members)), draw(gen.v4_int()), draw(st.sampled_from([1, 1, 2, 3, 7, 255, 256]))
        if fmt == "pf":
            cfg["aliases"].append({"n": "many", "t": "host", "d": "many", "ms": [leaf("ngrp", at, i * step)[:2] for i in range(n)]})
            if cfg["rules"]:
                cfg["rules"][0]["src"]["addr"] = ["grp", "many"]
        else:
            kind = draw(st.sampled_from(["ngrp"] * 3 + sorted(kinds)))
            order = list(range(n)) if draw(st.booleans()) else sorted(range(n), key=lambda i: (i * 7919) % 1009)
            defs.append(group(kind, "many", [leaf(kind, at, i * step) for i in order]))
            if kind == "ngrp":
                refer(fmt, cfg, "src", "many")
    if "nest" in how and fmt != "pf":
        n, at = draw(st.integers(*depth)), draw(gen.v4_int())
        kind = draw(st.sampled_from(["ngrp"] * 3 + sorted(kinds)))
        own = draw(st.sampled_from([1, 2, 0]))
        for i in range(n):
            ms = [leaf(kind, at, 2 * i)] if own or not i else []
            if i:
                ms.insert(draw(st.integers(0, 1)) if own == 2 else len(ms), [kinds[kind], f"deep{i - 1}"])
            defs.append(group(kind, f"deep{i}", ms))
        if kind == "ngrp":
            refer(fmt, cfg, "dst", f"deep{n - 1}")
    if "fan" in how and fmt != "pf":
        # a group of many groups
        n, at = draw(st.integers(*fan)), draw(gen.v4_int())
        kind = draw(st.sampled_from(["ngrp"] * 6 + sorted(kinds)))
        for i in range(n):
            defs.append(group(kind, f"part{i}", [leaf(kind, at, 3 * i)]))
        defs.append(group(kind, "whole", [[kinds[kind], f"part{i}"] for i in range(n)]))
        if kind == "ngrp":
            refer(fmt, cfg, draw(st.sampled_from(["src", "dst"])), "whole")
    if "rules" in how:
        total = draw(st.integers(*rules))
        if fmt == "asa":
            rs = [it for it in cfg["items"] if it["k"] == "rule"]
            cfg["items"] += [copy.deepcopy(rs[i % len(rs)]) for i in range(total - len(rs))] if rs else []
        elif fmt == "ios":
            for it in cfg["items"]:
                if it["k"] == "acl" and it["es"]:
                    it["es"] = [copy.deepcopy(it["es"][i % len(it["es"])]) for i in range(max(total, len(it["es"])))]
                    if it["t"] == "ipv6":
                        for i, e in enumerate(it["es"]):
                            e["seq"] = 10 * (i + 1)
                    break
        else:
            out = []
            for tag in dict.fromkeys(r["if"] for r in cfg["rules"]):
                run = [r for r in cfg["rules"] if r["if"] == tag]
                out += [copy.deepcopy(run[i % len(run)]) for i in range(max(total // 2, len(run)))]
            cfg["rules"] = out
            if out and draw(st.booleans()):
                # separators anywhere in a long list, which has up to a thousand rules
                run = [r for r in out if r["if"] == out[-1]["if"]]
                more = draw(st.sampled_from([0, 100, 400, 1000])) - len(run)
                out += [copy.deepcopy(run[i % len(run)]) for i in range(more)]
                n, cfg["sep_tag"] = len(run) + max(more, 0), True
                for at in draw(st.lists(st.one_of(st.sampled_from([n - 1, 9, 10, 11, 99, 100, 101]), st.integers(0, n - 1)), max_size=4, unique=True)):
                    if at < n:
                        cfg["seps"].append({"if": out[-1]["if"], "row": at, "text": f"sep {at}", "color": "bg-info"})
    if fmt != "pf":
        cfg["items"] = defs + cfg["items"]
    return cfg
