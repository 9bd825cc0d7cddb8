"""Format detection and every way of loading give the same configuration."""
import io
import os
import shutil
import tempfile
import threading

from hypothesis import strategies as st

from acltk import ACLConfig
from acltk.fwsmObjects import fwsmConfig
from acltk.iosObjects import iosConfig
from acltk.pfsenseObjects import pfsenseConfig, pfsenseParserOptions
from vlib import asa, gen, ios, observe, parse, pf
from vlib.core import Sub

ID = "P12"
RULE = (
    "Hypothesis draws configurations of the three formats with at least one access rule, with Unix or DOS line ends, with "
    "or without a final newline and a byte order mark, and loads each in every way there is (format detection and the "
    "format's own class; text, open file, path). The observations must agree with the own class reading the plain text, "
    "and the other formats must refuse the text. A second sub-check feeds texts that are no configuration. Non-trivial: "
    "at least two rules and a byte order mark, DOS line ends or no final newline (resp. every such text)."
)

CLS = {"asa": fwsmConfig, "ios": iosConfig, "pf": pfsenseConfig}


@st.composite
def padding(draw):
    """A comment in front that makes the file long: [size in bytes, filler, line length], or None."""
    if draw(st.integers(0, 3)):
        return None
    size = draw(st.sampled_from([4096, 8192, 16384, 65536, 65536, 131072, 1 << 20])) + draw(st.integers(-40, 40))
    return [size, draw(st.sampled_from(["x", "ä", "€", "😀", "xäy€"])), draw(st.sampled_from([100, 2000] if size < 9000 else [20000]))]


def padded(fmt, pad, t, note=None):
    """The configuration below a comment of some length, and one of some words."""
    if note:
        c = f"<!-- {note} -->" if fmt == "pf" else f"! {note}"
        if fmt != "pf":
            t = c + "\n" + t
        elif t.startswith("<?xml"):
            head, _, rest = t.partition("?>")
            t = head + "?>\n" + c + "\n" + rest.lstrip("\n")
        else:
            t = t.rstrip("\n") + "\n" + c + "\n"
    return filled(fmt, pad, t)


def filled(fmt, pad, t):
    if pad is None:
        return t
    size, fill, width = pad
    n, width = size // len(fill.encode()), width // len(fill)
    body = [fill * min(width, n - i) for i in range(0, n, width)]
    if fmt == "pf":
        body = "<!-- " + "\n".join(body) + " -->"
        head, _, rest = t.partition("?>")
        return head + "?>\n" + body + "\n" + rest.lstrip("\n") if head.startswith("<?xml") else t.rstrip("\n") + "\n" + body + "\n"
    # a comment of its own width, then the configuration: its text lies across any block border
    return "".join(f"! {l}\n" for l in body) + t


def from_unnamed(c, data):
    """A file without a path: its name is its descriptor."""
    with tempfile.TemporaryFile(buffering=0) as f:
        f.write(data)
        f.seek(0)
        return c.fromFile(f)


def from_pipe(c, data):
    """A file that cannot be read twice, and that arrives in pieces."""
    r, w = os.pipe()

    def write():
        with os.fdopen(w, "wb") as f:
            f.write(data)

    t = threading.Thread(target=write)
    with os.fdopen(r, "rb") as f:
        t.start()
        try:
            return c.fromFile(f)
        finally:
            f.read()
            t.join()


FILENAMES = ["a.conf", "rt.ios", "ios.txt", "kiosk.conf", "fwsm.cfg", "asa", "config.xml", "pfsense.xml", "pfsense-ios-asa.conf", "x.txt", "opnsense", "x.caf"]


def from_open(c, path):
    with open(path, "rb") as f:
        return c.fromFile(f)


@st.composite
def bare(draw):
    """Often texts without access rules, which several parsers take."""
    some = draw(st.booleans())
    cfg = draw(asa.config(max_rules=draw(st.sampled_from([0, 0, 3])), max_defs=4 if some else 0, nat=2 if some else 0, min_rules=0, chains=some, use_names=some, times=some))
    return {"cfg": cfg, "name": draw(st.sampled_from(FILENAMES)), "fmt": "any"}


def check_names(case, ctx):
    """The file's name has no say, whatever the text is detected as."""
    ctx.note(True)
    t = asa.text(case["cfg"]).encode("utf-8")
    with ctx.sut("detection fromString"):
        want = snap(ACLConfig.fromString(t.decode()))
    d = tempfile.mkdtemp(prefix="acltk-load-")
    try:
        path = os.path.join(d, case["name"])
        with open(path, "wb") as f:
            f.write(t)
        for name, fn in (("fromPath", lambda: ACLConfig.fromPath(path)), ("fromFile", lambda: from_open(ACLConfig, path))):
            with ctx.sut(f"{name} {case['name']}"):
                got = snap(fn())
            ctx.eq(f"detection {name} {case['name']}", got, want)
    finally:
        shutil.rmtree(d)


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["asa", "ios", "pf"]))
    if fmt == "asa":
        cfg = draw(asa.config(max_rules=5, max_defs=5, nat=2))
    elif fmt == "ios":
        cfg = draw(ios.config(acls=(1, 2), max_defs=2, n_ifaces=(0, 2), routes=2, max_entries=3).filter(lambda c: ios.rules(c)))
    else:
        cfg = draw(pf.config(max_rules=5, max_aliases=3))
        for a in cfg["aliases"]:
            a["t"] = "host" if a["t"] == "urltable" else a["t"]
        cfg["aliases"] = [a for a in cfg["aliases"] if all(m[0] != "junk" for m in a["ms"])]
        keep = {a["n"] for a in cfg["aliases"]}
        for r in cfg["rules"]:
            for e in (r["src"], r["dst"]):
                if e["addr"][0] == "grp" and e["addr"][1] not in keep:
                    e["addr"] = ["any"]
    return {"fmt": fmt, "cfg": cfg, "eol": draw(st.sampled_from(["\n", "\r\n"])), "last": draw(st.booleans()), "bom": draw(st.booleans()), "pad": draw(padding()), "note": draw(st.one_of(st.none(), st.sampled_from(gen.MARKERS))), "name": draw(st.sampled_from(FILENAMES))}


def text_of(case):
    t = padded(case["fmt"], case.get("pad"), {"asa": asa, "ios": ios, "pf": pf}[case["fmt"]].text(case["cfg"]), case.get("note"))
    t = t.rstrip("\n") if not case["last"] else t
    return t.replace("\n", case["eol"])


def snap(c):
    s = observe.snapshot(c)
    return observe.deep(s, lambda x: x.strip())


def check(case, ctx):
    fmt = case["fmt"]
    cls = CLS[fmt]
    plain = {"asa": asa, "ios": ios, "pf": pf}[fmt].text(case["cfg"])
    t = text_of(case)
    ctx.label(fmt, "crlf" if case["eol"] != "\n" else "lf", "bom" if case["bom"] else "no bom", "final newline" if case["last"] else "no final newline", "long" if case.get("pad") else "short")
    opts = pfsenseParserOptions(fetch_urltable=False) if fmt == "pf" else None
    with ctx.sut("own parser, plain text"):
        ref = cls.fromString(plain, options=opts)
        want = snap(ref)
    data = (b"\xef\xbb\xbf" if case["bom"] else b"") + t.encode("utf-8")
    ways = []
    d = tempfile.mkdtemp(prefix="acltk-load-")
    path = os.path.join(d, case.get("name", "a.conf"))
    try:
        with open(path, "wb") as f:
            f.write(data)
        for name, c in (("detection", ACLConfig), ("own class", cls)):
            o = [None] if c is ACLConfig else [None, opts]
            ways.append((f"{name} fromString", lambda c=c: c.fromString(t)))
            ways.append((f"{name} fromFile", lambda c=c: c.fromFile(io.BytesIO(data))))
            ways.append((f"{name} fromPath {os.path.basename(path)}", lambda c=c: c.fromPath(path)))
            ways.append((f"{name} fromFile {os.path.basename(path)}", lambda c=c: from_open(c, path)))
            ways.append((f"{name} fromFile unnamed", lambda c=c: from_unnamed(c, data)))
            ways.append((f"{name} fromFile pipe", lambda c=c: from_pipe(c, data)))
            if opts is not None:
                ways.append((f"{name} fromString with options", lambda c=c: c.fromString(t, options=opts)))
                ways.append((f"{name} fromPath with options", lambda c=c: c.fromPath(path, options=opts)))
        for name, fn in ways:
            with ctx.sut(name):
                got = snap(fn())
            ctx.eq(name, got, want)
    finally:
        shutil.rmtree(d)
    for other, c in CLS.items():
        if other != fmt:
            ctx.must_raise(f"{c.__name__} on a text of {fmt}", c.fromString, plain)
    ctx.note(len(want["rules"]) >= 2 and (case["bom"] or case["eol"] != "\n" or not case["last"]), t[:800])


@st.composite
def junk_cases(draw):
    k = draw(st.sampled_from(["prose", "json", "xml", "shell", "caf", "iptables", "cut"]))
    if k == "prose":
        return {"k": k, "t": draw(st.lists(st.sampled_from(["lorem", "ipsum", "dolor", "sit amet", "Hello", "the"]), min_size=1, max_size=9).map(" ".join))}
    if k == "json":
        return {"k": k, "t": draw(st.sampled_from(['{"rules": []}', "[1, 2]", '{"hostname": "fw"}\n']))}
    if k == "xml":
        return {"k": k, "t": draw(st.sampled_from(["<html><body/></html>", "<config><filter/></config>", "<rule/>", "<pfsense>", "<pfsense><filter><rule></filter></pfsense>", "<pfsense/"]))}
    if k == "shell":
        return {"k": k, "t": draw(st.sampled_from(["#!/bin/sh\necho x\n", "iptables -A INPUT -j DROP\n", "set interfaces ge-0/0/0 unit 0\n"]))}
    if k == "caf":
        return {"k": k, "t": draw(st.sampled_from(["id inside_in", "( id A ) union ( id B )"]))}
    if k == "iptables":
        return {"k": k, "t": "*filter\n:INPUT ACCEPT [0:0]\n-A INPUT -j DROP\nCOMMIT\n"}
    # a configuration followed by something else
    cfg = draw(asa.config(max_rules=3, max_defs=2))
    return {"k": k, "t": asa.text(cfg) + draw(st.sampled_from(["}\n", "lorem ipsum\n", "<x/>\n", "\\\n", '"\n', "§\n"]))}


def check_junk(case, ctx):
    ctx.label(case["k"])
    ctx.note(True, case["t"])
    for name, fn in (("fromString", lambda: ACLConfig.fromString(case["t"])), ("fromFile", lambda: ACLConfig.fromFile(io.BytesIO(case["t"].encode("utf-8"))))):
        e = ctx.must_raise(f"detection {name}", fn)
        ctx.true(f"detection {name} raises ValueError", isinstance(e, ValueError), repr(e))


SUBS = [
    Sub("ways", cases, check, 250, 8000),
    Sub("names", bare, check_names, 120, 2000),
    Sub("no configuration", junk_cases, check_junk, 150, 2000),
]
