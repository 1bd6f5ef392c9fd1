"""llmlift_scripts, imported from a scratch copy (its parser rewrites its own dsl.py), with the LLM services' packages stubbed."""
import importlib
import os
import shutil
import sys
import types

from . import env, fastmypy

_m = None


def modules():
    """-> (parser, utils, synthesis, text of dsl.py, its namespace)"""
    global _m
    if _m is None or _m[0] != os.getpid():
        d = os.path.join(env.scratch(), f"llm-{os.getpid()}")
        shutil.copytree(os.path.join(env.REPO, "llmlift_scripts"), os.path.join(d, "llmlift_scripts"))
        for m in [m for m in sys.modules if m.split(".")[0] == "llmlift_scripts"]:
            del sys.modules[m]
        sys.path.insert(0, d)
        os.chdir(d)
        os.environ["MYPYPATH"] = d
        fastmypy.install()

        def stub(name, **kw):
            m = types.ModuleType(name)
            m.__dict__.update(kw)
            sys.modules[name] = m
            return m

        class Client:
            def __init__(self, *a, **k):
                pass
        g = stub("google.generativeai", GenerativeModel=Client)
        stub("google", generativeai=g)
        stub("anthropic", Anthropic=Client)
        stub("openai", OpenAI=Client)
        stub("dotenv", load_dotenv=lambda *a, **k: True)
        p, u, s = [importlib.import_module("llmlift_scripts." + n) for n in ("parser", "utils", "synthesis")]
        assert p.__file__.startswith(d)
        dsl = open(os.path.join(env.REPO, "llmlift_scripts", "dsl.py")).read()
        ns = {}
        exec(dsl, ns)
        _m = os.getpid(), (p, u, s, dsl, ns)
    return _m[1]
