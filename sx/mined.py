"""Integer and text constants of the current source: they only choose which further inputs are explored (long inputs around
each integer, texts around each constant that the pinned source does not have), never what is right."""

import ast
import collections
import json
import os
import re

ROOT = os.path.join(os.environ.get("SX_REPO", "/repo"), "asyncapi3")
BASELINE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", "baseline_constants.json")
LIMIT = 3


def mine(root=ROOT):
    """{file: {constant: how often}} without docstrings; texts are written as 's...', integers as 'i...'."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            try:
                tree = ast.parse(open(path, encoding="utf-8").read())
            except SyntaxError:
                continue
            skip = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
            count = collections.Counter()
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in skip:
                    if type(n.value) is int:
                        count[f"i{n.value}"] += 1
                    elif type(n.value) is str:
                        count["s" + n.value] += 1
            out[os.path.relpath(path, root)] = dict(count)
    return out


def _new():
    base = json.load(open(BASELINE, encoding="utf-8"))
    ints, texts, every = [], [], set()
    for f, count in sorted(mine().items()):
        old = base.get(f, {})
        for c, n in count.items():
            if c[0] == "i":
                every.add(abs(int(c[1:])))
            if n <= old.get(c, 0):
                continue
            if c[0] == "i":
                ints.append(int(c[1:]))
            else:
                texts += _pieces(c[1:])
    extra = os.environ.get("SX_EXTRA_CONSTANTS")
    if extra:
        for x in extra.split(","):
            ints.append(int(x)) if x.isdigit() else texts.append(x)
    return sorted(every), sorted(set(ints)), list(dict.fromkeys(texts))[:LIMIT]


def _pieces(s):
    """The texts worth trying: the constant itself, or the literal runs of a pattern; messages are not."""
    if not s or len(s) > 60 or s.count(" ") > 1:
        return []
    if re.search(r"[\\\[\](){}|^*]", s):
        return [x for x in re.findall(r"[A-Za-z0-9_\-./$#:@]{2,}", re.sub(r"\\([wdsWDSbBAZ]|x..)", " ", s).replace("\\", ""))]
    return [s] if len(s) <= 24 and s.isascii() else []


INTS, NEW_INTS, NEW_TEXTS = _new()
