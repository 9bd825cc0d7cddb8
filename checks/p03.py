"""Overlap of two address specifications is exact and symmetric."""
from hypothesis import strategies as st

from vlib import build, cafgen, gen
from vlib import netmodel as nm
from vlib.core import Sub

ID = "P03"
RULE = (
    "Hypothesis draws pairs of address specifications of every kind (host, network, wildcard mask, range/subnet/host/"
    "FQDN object, any/any4/any6, interface, nested groups), the second one on, around or just outside the intervals of "
    "the first, and compares both orders of the overlap test with interval/wildcard arithmetic on integers. Non-trivial: "
    "neither side contains an any or an interface and the versions coincide."
)
ASSUMPTIONS = ["an FQDN object stands for every address of its version", "groups without addresses are not compared with any/interface"]


@st.composite
def simple(draw, ivs, grp=False):
    k = draw(st.integers(0, 11 if not grp else 8))
    if k <= 3:
        t = draw(cafgen.near(ivs))
        return [t[0].lower()] if len(t) == 1 else t
    if k == 4:
        return draw(gen.net())
    if k == 5:
        r = draw(gen.addr_range(big=draw(st.booleans())))
        if ivs and draw(st.booleans()):
            v, lo, hi = draw(st.sampled_from(ivs))
            x = draw(st.sampled_from([lo, hi, max(lo - 1, 0), min(hi + 1, nm.MAX[v])]))
            w = draw(st.sampled_from([0, 1, 2, 6, 255, 300]))
            r = ["range", nm.fmt(v, max(x - w, 0)), nm.fmt(v, x)] if draw(st.booleans()) else ["range", nm.fmt(v, x), nm.fmt(v, min(x + w, nm.MAX[v]))]
        return ["obj", "o", r]
    if k == 6:
        return ["obj", "o", draw(gen.host() if draw(st.booleans()) else gen.net())]
    if k == 7:
        return draw(st.sampled_from([["obj", "o", ["fqdn", None, "a.b"]], ["obj", "o", ["fqdn", "v4", "a.b"]], ["obj", "o", ["fqdn", "v6", "a.b"]], ["obj", "o", None], ["any4"], ["any6"]]))
    if k == 8:
        return draw(gen.host())
    if k == 9:
        return draw(st.sampled_from([["any"], ["iface", "inside"]]))
    if ivs and draw(st.booleans()):
        v, lo, hi = draw(st.sampled_from(ivs))
        if v == 4:
            return ["wild", nm.fmt(4, draw(st.sampled_from([lo, hi, (lo + hi) // 2]))), draw(gen.wildcard)]
    return ["wild", draw(gen.v4), draw(gen.wildcard)]


@st.composite
def spec(draw, ivs, depth=2, grp=False):
    if depth and draw(st.integers(0, 3)) == 0:
        return ["grp", "g", draw(st.lists(spec(ivs, depth - 1, True), min_size=0, max_size=4))]
    return draw(simple(ivs, grp))


@st.composite
def pairs(draw):
    a = draw(spec([]))
    ivs = []
    cafgen.bounds(a, ivs)
    b = draw(spec(ivs))
    return [a, b]


def has_all(s):
    return any(a == ("all",) for a in nm.atoms(s))


def kinds(s):
    return {"grp"} | {k for m in s[2] for k in kinds(m)} if s[0] == "grp" else {s[0]}


def check(case, ctx):
    a, b = case
    ea, eb = hollow(a), hollow(b)
    want = nm.overlap(nm.atoms(a), nm.atoms(b))
    ctx.label("overlap" if want else "disjoint", *["-".join(sorted([x, y])) for x in kinds(a) for y in kinds(b)])
    ctx.note(not has_all(a) and not has_all(b) and {x[0] == 6 for x in nm.atoms(a)} & {x[0] == 6 for x in nm.atoms(b)}, [a, b])
    if (ea and has_all(b)) or (eb and has_all(a)):
        ctx.note(False)
        return
    with ctx.sut("comparing"):
        x, y = build.obj(a), build.obj(b)
        got = [bool(x & y), bool(y & x)]
    ctx.eq(f"overlap of {a} and {b}, both orders", got, [want, want])


def hollow(s):
    """Holds a part without any address."""
    if s[0] == "grp":
        return not s[2] or any(hollow(m) for m in s[2])
    return s[0] == "obj" and s[2] is None


N = 6


@st.composite
def history(draw):
    """Steps over N groups, a lower one may hold a higher one."""
    steps, ivs = [], []
    for _ in range(draw(st.integers(3, 24))):
        k = draw(st.sampled_from(["add", "add", "nest", "nest", "cmp", "cmp", "cmp", "groups", "expand", "collapse"]))
        g = draw(st.integers(0, N - 1))
        if k == "nest":
            if g == N - 1:
                continue
            steps.append([k, g, draw(st.integers(g + 1, N - 1))])
        elif k in ("add", "cmp"):
            s = draw(simple(ivs, k == "add"))
            if hollow(s):
                continue
            cafgen.bounds(s, ivs)
            steps.append([k, g, s])
        elif k == "groups":
            steps.append([k, g, draw(st.integers(0, N - 1))])
        else:
            steps.append([k, g])
    return steps


def run(case, ctx):
    """Groups that grow while they are being compared, expanded and collapsed."""
    with ctx.sut("making groups"):
        objs = [build.obj(["grp", f"g{n}", []]) for n in range(N)]
    members = [[] for _ in range(N)]

    def content(n):
        return ["grp", f"g{n}", [content(m[1]) if m[0] == "#" else m for m in members[n]]]

    used = [False] * N
    late = 0
    for i, step in enumerate(case):
        k, n = step[:2]
        if k in ("add", "nest"):
            below = {n}
            # groups holding this one grow as well
            for m in reversed(range(n)):
                if any(x[0] == "#" and x[1] in below for x in members[m]):
                    below.add(m)
            if any(used[m] for m in below):
                late += 1
            if k == "nest" and any(x == ["#", step[2]] for x in members[n]):
                continue
            members[n].append(step[2] if k == "add" else ["#", step[2]])
            with ctx.sut(f"step {i}: adding a member"):
                objs[n].add(build.obj(step[2]) if k == "add" else objs[step[2]])
            continue
        a = content(n)
        used[n] = True
        if k in ("cmp", "groups"):
            b = step[2] if k == "cmp" else content(step[2])
            if (hollow(a) and has_all(b)) or (hollow(b) and has_all(a)):
                continue
            with ctx.sut(f"step {i}: comparing"):
                other = build.obj(b) if k == "cmp" else objs[step[2]]
                got = [bool(objs[n] & other), bool(other & objs[n])]
            want = nm.overlap(nm.atoms(a), nm.atoms(b))
            ctx.label("overlap" if want else "disjoint")
            ctx.eq(f"step {i}: overlap of {a} and {b}, both orders", got, [want, want])
        else:
            if k == "collapse" and kinds(a) - {"grp", "host", "net"}:
                continue
            ctx.label(k)
            with ctx.sut(f"step {i}: {k}"):
                x = getattr(objs[n], k)(insitu=False)
                assert x is not objs[n]
    ctx.label("late members" if late else "no late members")
    ctx.note(late, case)


SUBS = [Sub("pairs", pairs, check, 24000, 800000), Sub("history", history, run, 2500, 80000)]
