"""The shipped grammars as parsers and as string generators.

prepare() makes, once per run and .bnf content, a copy of /repo/lib whose
generated parsers come from the .bnf files of the same tree, and a JSON form
of the grammars for drawing strings. ask() hands a request to a process that
works on this copy; handle() does the same with the code under test."""
import atexit
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

from vlib import env

LANGS = ("caf", "fwsm", "ios")
RUN = os.path.join(env.VERIF, "evidence", "run")


# --- preparing -------------------------------------------------------------------


def ir(x):
    """A tatsu grammar node as JSON: what strings it stands for."""
    k = type(x).__name__
    if k == "Token":
        return ["tok", x.token]
    if k == "Pattern":
        return ["pat", x.pattern]
    if k == "RuleRef":
        return ["ref", x.name]
    if k == "RuleInclude":
        return ["ref", x.rule.name]
    if k == "Choice":
        return ["alt"] + [ir(c) for c in x.children()]
    if k == "Sequence":
        return ["seq"] + [ir(c) for c in x.children()]
    if k == "Optional":
        return ["opt", ir(x.exp)]
    if k in ("Closure", "PositiveClosure"):
        return ["rep", 1 if k[0] == "P" else 0, ir(x.exp), None]
    if k in ("Gather", "PositiveGather", "Join", "PositiveJoin"):
        return ["rep", 1 if k[0] == "P" else 0, ir(x.exp), ir(x.sep)]
    if k in ("Lookahead", "NegativeLookahead", "Void", "Cut", "Constant", "EOF", "Fail", "Alert", "EOL"):
        return ["seq"]
    if hasattr(x, "exp"):
        return ir(x.exp)
    raise AssertionError(f"grammar node {k}")


def _make(d, lang):
    import tatsu

    path = os.path.join(env.LIB, "acltk", lang + ".bnf")
    with open(path) as f:
        src = f.read()
    model = tatsu.compile(src, name=lang, filename=path)
    code = tatsu.to_python_sourcecode(src, name=lang, filename=path)
    with open(os.path.join(d, lang + ".json"), "w") as f:
        json.dump({r.name: ir(r.exp) for r in model.rules}, f)
    with open(os.path.join(d, lang + ".py.new"), "w") as f:
        f.write(code)


def _key():
    h = hashlib.sha256()
    base = os.path.join(env.LIB, "acltk")
    for n in sorted(os.listdir(base)):
        if n.endswith((".bnf", ".py")):
            with open(os.path.join(base, n), "rb") as f:
                h.update(n.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:16]


def _locked(path, fn):
    with open(path, "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return fn()


STATE = {}


def prepare():
    if "dir" in STATE:
        return STATE["dir"]
    os.makedirs(RUN, exist_ok=True)
    d = os.path.join(RUN, "ref-" + _key())
    os.makedirs(d, exist_ok=True)
    k = os.getpid() % 3  # so that several processes share the work
    order = LANGS[k:] + LANGS[:k]
    for lang in order:

        def make():
            if not os.path.exists(os.path.join(d, lang + ".ok")):
                _make(d, lang)
                open(os.path.join(d, lang + ".ok"), "w").close()

        _locked(os.path.join(d, lang + ".lock"), make)

    def tree():
        if os.path.exists(os.path.join(d, "tree.ok")):
            return
        lib = os.path.join(d, "lib")
        if os.path.exists(lib):
            shutil.rmtree(lib)
        shutil.copytree(env.LIB, lib, ignore=shutil.ignore_patterns("__pycache__"))
        for lang in LANGS:
            os.replace(os.path.join(d, lang + ".py.new"), os.path.join(lib, "acltk", lang + ".py"))
        open(os.path.join(d, "tree.ok"), "w").close()

    _locked(os.path.join(d, "tree.lock"), tree)
    # leftovers of other trees
    for n in os.listdir(RUN):
        if n.startswith("ref-") and n != os.path.basename(d):
            shutil.rmtree(os.path.join(RUN, n), ignore_errors=True)
    STATE["dir"] = d
    return d


def grammar(lang):
    if lang not in STATE:
        with open(os.path.join(prepare(), lang + ".json")) as f:
            STATE[lang] = json.load(f)
    return STATE[lang]


# --- requests ----------------------------------------------------------------------


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x if x is None or isinstance(x, (str, int, float, bool)) else str(x)


def _parser(lang):
    import importlib

    from tatsu.infos import ParserConfig

    cls = getattr(importlib.import_module("acltk." + lang), lang + "Parser")
    if lang == "caf":
        return cls(config=ParserConfig(parseinfo=False, trace_length=200, nameguard=True))
    return cls(config=ParserConfig(parseinfo=False, trace_length=200, whitespace="", nameguard=True))


def raw(req):
    """One grammar rule on a text: the syntax tree, without any semantics."""
    p = _parser(req["lang"])
    r = p.parse(req["text"], rule_name=req["rule"])
    return [plain(r)]


def snap(req):
    from vlib import observe, parse

    if req["fmt"] == "caf":
        from checks import p01

        c = p01.config()
        return sorted(p01.index(c, c.filter(parse.caf(req["text"]))))
    c = {"asa": parse.asa, "ios": parse.ios, "auto": parse.auto}[req["fmt"]](req["text"])
    return observe.snapshot(c)


def handle(req):
    import contextlib
    import io

    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return {"ok": {"raw": raw, "snap": snap}[req["op"]](req)}
    except RecursionError:
        return {"recursion": True}
    except Exception as e:
        return {"refused": type(e).__name__}


def serve():
    out = os.dup(1)
    os.dup2(2, 1)
    with os.fdopen(out, "w") as f:
        for line in sys.stdin:
            f.write(json.dumps(handle(json.loads(line))) + "\n")
            f.flush()


def ask(req):
    if "proc" not in STATE:
        e = dict(os.environ, ACLTK_REPO=prepare(), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen(
            [sys.executable, os.path.join(env.VERIF, "run.py"), "--reference"],
            env=e,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
        )
        STATE["proc"] = p
        atexit.register(p.kill)
    p = STATE["proc"]
    p.stdin.write(json.dumps(req) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the reference process ended")
    return json.loads(line)
