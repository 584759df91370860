"""pytest plugin: runs the repository's own tests through the encoding (rewritten source + core-schema interpreter)."""

import importlib
import pkgutil
import sys

import sx.z3path  # noqa: E402, F401
from sx import engine as en
from sx import instrument as ins

ins.install()
import asyncapi3

for m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3."):
    importlib.import_module(m.name)
from sx import core

N = core.install()
en.CX = en.SymCtx([], None, {"queries": 0, "solver_s": 0.0, "obligations": 0}, max_steps=10**12)
