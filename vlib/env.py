"""Import paths: the code under test comes from /repo/lib (ACLTK_LIB overrides it
for experiments on scratch copies); Hypothesis comes from the tooling venv."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ACLTK_REPO", "/repo")
LIB = os.path.join(REPO, "lib")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    sys.dont_write_bytecode = True
    if LIB not in sys.path:
        sys.path.insert(0, LIB)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import hypothesis  # noqa: F401
    import jinja2  # noqa: F401
    import logging
    import tatsu  # noqa: F401
    import tatsu.parsing  # noqa: F401
    import tatsu.infos  # noqa: F401

    # never trust bytecode lying in /repo: read the sources as they are now
    prefix, sys.pycache_prefix = sys.pycache_prefix, os.path.join(VERIF, "evidence", "no-bytecode")
    try:
        import acltk  # noqa: F401
        import acltk.aclSemantics, acltk.caf, acltk.cafSemantics  # noqa: E401,F401
        import acltk.fwsmSemantics, acltk.iosSemantics, acltk.pfsenseSemantics  # noqa: E401,F401
        import acltk.fwsmObjects, acltk.iosObjects, acltk.pfsenseObjects, acltk.cafObjects  # noqa: E401,F401
    finally:
        sys.pycache_prefix = prefix
    assert os.path.dirname(os.path.abspath(acltk.__file__)) == os.path.join(LIB, "acltk"), acltk.__file__

    # ACLConfig.fromString logs every parser it gives up on, with traceback
    logging.disable(logging.CRITICAL)
