"""Let mypy read a small standard library (mlcheck/typeshed) instead of its full one.

mypy re-reads its standard-library stubs on every build (~3.5 s); with the small one a build takes ~60 ms.
The types of the supported subset (int, list, set, bool, tuple) are the same.  MLCHECK_FULL_TYPESHED=1 turns it off.
"""
import os

from . import env


def install():
    import mypy.build as mb

    if getattr(mb, "_mlcheck", False) or os.environ.get("MLCHECK_FULL_TYPESHED"):
        return
    orig = mb.build
    d = os.path.join(env.VERIF, "mlcheck", "typeshed")

    def build(sources, options, *a, **k):
        if not FULL[0]:
            options.custom_typeshed_dir = options.abs_custom_typeshed_dir = d
        return orig(sources, options, *a, **k)

    mb.build = build
    mb._mlcheck = True


FULL = [False]
