"""
Path-forking symbolic execution core.

A *harness* (a Python function taking a context ``cx``) is executed natively by CPython over proxy values
(SymStr, SymInt, SymBool) whose operations build SMT terms.  Whenever the program needs the truth value of a
symbolic condition the context forks: both sides that are satisfiable under the path condition are explored,
by re-executing the harness with a recorded decision prefix.  ``cx.check`` is the assertion: the solver must
refute ``path condition and not property``; a model is turned into concrete inputs and replayed on the real,
uninstrumented library.

Inputs are bounded: strings are ropes of literals and *atoms* (a length variable and one 8-bit variable per
position ranging over ALPHA), integers are unbounded SMT integers unless the harness bounds them, choices are
finite-domain integers.
"""

import sys
import time

import z3

# --------------------------------------------------------------------------------------------------------------
# alphabet
# --------------------------------------------------------------------------------------------------------------
_EXTRA = [
    0x80, 0x85, 0xA0, 0xAA, 0xAD, 0xB2, 0xB5, 0xBC, 0xC0, 0xDF, 0xE9, 0xF7, 0xFF, 0x130, 0x131, 0x17F, 0x1C5,
    0x2B0, 0x301, 0x37E, 0x3A3, 0x3C3, 0x410, 0x5D0, 0x660, 0x663, 0x6F3, 0x7FF, 0x800, 0x966, 0x200B, 0x2010,
    0x2013, 0x2028, 0x2029, 0x202E, 0x203F, 0x20AC, 0x212A, 0x2160, 0x3000, 0x4E2D, 0xFB01, 0xFEFF, 0xFF0D, 0xFF0E,
    0xFF11, 0xFF13, 0xFF21, 0xFF3F, 0xFFFD, 0x10400, 0x1D7D8, 0x1F600,
]
_CASED = [ord(r) for c in _EXTRA for r in (chr(c).lower(), chr(c).upper(), chr(c).casefold()) if len(r) == 1]
# ASCII first; then characters of one class side by side, so that the usual character classes are few ranges
ALPHA = [chr(c) for c in range(128)] + sorted(
    {chr(c) for c in {*_EXTRA, *_CASED} if c >= 128},
    key=lambda c: (c.isalnum(), c.isalpha(), c.isdecimal(), c.isdigit(), c.isupper(), c.islower(), c.isspace(), c.isprintable(), c),
)
INDEX = {c: i for i, c in enumerate(ALPHA)}
K = len(ALPHA)
assert K <= 256
FULL = (1 << K) - 1


def mask_of(pred):
    m = 0
    for i, c in enumerate(ALPHA):
        if pred(c):
            m |= 1 << i
    return m


def mask_chars(chars):
    m = 0
    for c in chars:
        i = INDEX.get(c)
        if i is not None:
            m |= 1 << i
    return m


class Unsupported(BaseException):
    """The program did something with a symbolic value that the encoding does not model."""


class Infeasible(BaseException):
    """The current path turned out to be unsatisfiable (or was cut by an assumption)."""


class Diverged(BaseException):
    """The path exceeded the step bound."""


class SolverUnknown(BaseException):
    """The solver gave up: the check is inconclusive."""


FIRST_MS = 40  # time for the incremental solver before a query goes to another one
NEAR = []  # text constants that are new in the source under check
CX = None  # current symbolic context (None in concrete mode)


def cur():
    if CX is None:
        raise RuntimeError("no symbolic context")
    return CX


# --------------------------------------------------------------------------------------------------------------
# formulas: python bool or z3 BoolRef
# --------------------------------------------------------------------------------------------------------------
def f_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def f_and(items):
    out = []
    for a in items:
        if a is False:
            return False
        if a is True:
            continue
        out.append(a)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def f_or(items):
    out = []
    for a in items:
        if a is True:
            return True
        if a is False:
            continue
        out.append(a)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


class Cell:
    """One symbolic character."""

    __slots__ = ("var", "name", "_cache")

    def __init__(self, name):
        self.name = name
        self.var = z3.BitVec(name, 8)
        self._cache = {}

    def dom(self):
        return CX.dom.get(self.name, FULL)

    def within(self, mask):
        """Formula: this character is in the set ``mask``."""
        dom = CX.dom.get(self.name, FULL)
        m = mask & dom
        if m == dom:
            return True
        if m == 0:
            return False
        e = self._cache.get(m)
        if e is None:
            e = _mask_formula(self.var, m)
            self._cache[m] = e
            CX.fast[e.get_id()] = (self, m, e)
        return e


class Mapped:
    """A character that is a function (within the alphabet) of another one."""

    __slots__ = ("src", "image", "name", "_var")

    def __init__(self, src, fn):
        self.src = src
        dom = src.dom()
        self.image = {i: INDEX[fn(c)] for i, c in enumerate(ALPHA) if dom >> i & 1 and fn(c) in INDEX}
        self.name = f"{src.name}~{hash(tuple(self.image.items()))}"
        self._var = None

    @property
    def var(self):
        if self._var is None:
            e, v = self.src.var, self.src.var
            runs = []
            for i, j in sorted(self.image.items()):
                if i == j:
                    continue
                if runs and runs[-1][1] == i - 1 and runs[-1][2] == j - i:
                    runs[-1][1] = i
                else:
                    runs.append([i, i, j - i])
            for lo, hi, d in runs:
                e = z3.If(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)), v + d, e)
            self._var = e
        return self._var

    def dom(self):
        d, m = self.src.dom(), 0
        for i, j in self.image.items():
            if d >> i & 1:
                m |= 1 << j
        return m

    def within(self, mask):
        pre = 0
        for i, j in self.image.items():
            if mask >> j & 1:
                pre |= 1 << i
        return self.src.within(pre)


def _mask_formula(v, mask):
    if bin(mask).count("1") * 2 > K + 40:
        return z3.Not(_mask_formula(v, FULL & ~mask))
    alts = []
    i = 0
    while i < K:
        if mask >> i & 1:
            j = i
            while j + 1 < K and mask >> (j + 1) & 1:
                j += 1
            if i == j:
                alts.append(v == i)
            else:
                lo = [] if i == 0 else [z3.UGE(v, i)]
                alts.append(z3.And(*lo, z3.ULE(v, j)))
            i = j + 1
        else:
            i += 1
    return alts[0] if len(alts) == 1 else z3.Or(alts)


def cell_in(cell, mask, pred=None):
    """Formula: cell (Cell or concrete char) lies in the set."""
    if isinstance(cell, str):
        i = INDEX.get(cell)
        if i is not None:
            return bool(mask >> i & 1)
        if pred is None:
            return False
        return bool(pred(cell))
    return cell.within(mask)


def cell_is(cell, ch):
    if isinstance(cell, str):
        return cell == ch
    i = INDEX.get(ch)
    if i is None:
        return False
    return cell.within(1 << i)


def cell_eq(a, b):
    if isinstance(a, str):
        return cell_is(b, a)
    if isinstance(b, str):
        return cell_is(a, b)
    if a is b or a.name == b.name:
        return True
    da, db = a.dom(), b.dom()
    if not da & db:
        return False
    return a.var == b.var


class Atom:
    """A bounded symbolic string variable."""

    __slots__ = ("name", "lengths", "n", "cells", "fixed", "pytype")

    def __init__(self, name, lengths, dom):
        self.name = name
        self.lengths = list(lengths)
        self.fixed = self.lengths[0] if len(self.lengths) == 1 else None
        hi = max(self.lengths)
        self.cells = [Cell(f"{name}!{i}") for i in range(hi)]
        cx = CX
        for c in self.cells:
            if c.name not in cx.dom:
                cx.dom[c.name] = dom
                if dom != FULL or True:
                    cx.assume_raw(_mask_formula(c.var, dom) if dom != FULL else z3.ULT(c.var, K))
        self.n = z3.Int(f"{name}!n")
        if self.fixed is None:
            cx.assume_raw(z3.Or([self.n == v for v in self.lengths]))
        else:
            cx.assume_raw(self.n == self.fixed)

    def options(self):
        return [self.fixed] if self.fixed is not None else self.lengths

    def fix(self):
        """Fork on the length."""
        if self.fixed is None:
            opts = self.lengths
            for i, v in enumerate(opts):
                if i == len(opts) - 1 or CX.branch(self.n == v):
                    if i == len(opts) - 1:
                        CX.branch_true(self.n == v)
                    self.fixed = v
                    break
        return self.cells[: self.fixed]


# --------------------------------------------------------------------------------------------------------------
# proxies
# --------------------------------------------------------------------------------------------------------------
class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        raise Unsupported(f"str() of {type(self).__name__} at a C boundary")

    def __format__(self, spec):
        raise Unsupported(f"format() of {type(self).__name__}")

    def __repr__(self):
        return f"<{type(self).__name__}>"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


SYMTYPES = set()


def is_sym(x):
    return type(x) in SYMTYPES


class SymBool(Sym):
    __slots__ = ("f",)
    __class__ = property(lambda self: bool)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CX.branch(self.f)

    def __eq__(self, other):
        o = formula(other, none=True)
        if o is None:
            return False
        return mkbool(f_or([f_and([self.f, o]), f_and([f_not(self.f), f_not(o)])]))

    def __ne__(self, other):
        return Not(self.__eq__(other))

    def __and__(self, other):
        return And(self, other)

    __rand__ = __and__

    def __or__(self, other):
        return Or(self, other)

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~bool")

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, other):
        return SymInt(z3.If(self.f, z3.IntVal(1), z3.IntVal(0))) + other

    __radd__ = __add__


def mkbool(f):
    return f if isinstance(f, bool) and not isinstance(f, Sym) else SymBool(f)


def formula(x, none=False):
    """z3/py formula of a python truth value without forking."""
    t = type(x)
    if t is bool:
        return x
    if t is SymBool:
        return x.f
    if isinstance(x, z3.BoolRef):
        return x
    if none:
        return None
    return bool(x)


def And(*xs):
    return mkbool(f_and([formula(x) for x in xs]))


def Or(*xs):
    return mkbool(f_or([formula(x) for x in xs]))


def Not(x):
    return mkbool(f_not(formula(x)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = formula(a), formula(b)
    if isinstance(a, bool):
        return mkbool(b if a else f_not(b))
    if isinstance(b, bool):
        return mkbool(a if b else f_not(a))
    return mkbool(a == b)


def _int(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is bool or t is int:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x.f, z3.IntVal(1), z3.IntVal(0))
    return None


class SymInt(Sym):
    __slots__ = ("e",)
    __class__ = property(lambda self: int)

    def __init__(self, e):
        self.e = e

    def _bin(self, other, fn):
        o = _int(other)
        if o is None:
            return NotImplemented
        return SymInt(fn(self.e, o))

    def _cmp(self, other, fn):
        o = _int(other)
        if o is None:
            if isinstance(other, float):
                o = z3.RealVal(repr(other)) if other == other and abs(other) != float("inf") else None
                if o is None:
                    raise Unsupported("comparison with nan/inf")
                return mkbool(_simp(fn(z3.ToReal(self.e), o)))
            return NotImplemented
        return mkbool(_simp(fn(self.e, o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) is SymInt:
            raise Unsupported("symbolic product")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.e / o)
        raise Unsupported("//")

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.e % o)
        raise Unsupported("%")

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __bool__(self):
        return CX.branch(_simp(self.e != 0))

    def __hash__(self):
        if CX.hash_ok:
            return id(self) >> 4
        raise Unsupported("hash of symbolic int")

    def __index__(self):
        v = CX.enumerate_int(self.e)
        return v

    __int__ = __index__

    def bit_length(self):
        a = z3.If(self.e >= 0, self.e, -self.e)
        if CX.branch(a >= 2**128):
            raise Unsupported("bit_length over 128")
        e = z3.IntVal(0)
        for k in range(128):
            e = z3.If(a >= 2**k, z3.IntVal(k + 1), e)
        return SymInt(e)


def _simp(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


_MAXCOMBOS = 24


class SymStr(Sym):
    """Immutable rope of str literals, Cells and Atoms."""

    __slots__ = ("parts", "pytype", "_id")
    __class__ = property(lambda self: self.pytype)

    def __init__(self, parts, pytype=str):
        self.parts = parts
        self.pytype = pytype

    # --- representation -------------------------------------------------------------------------------------
    def cells(self):
        """Fix all lengths (forking) and return a list of concrete chars and Cells."""
        out = []
        for p in self.parts:
            if type(p) is str:
                out.extend(p)
            elif type(p) is Atom:
                out.extend(p.fix())
            else:
                out.append(p)
        return out

    def atoms(self):
        seen = []
        for p in self.parts:
            if type(p) is Atom and p.fixed is None and p not in seen:
                seen.append(p)
        return seen

    def cells_with(self, lens):
        out = []
        for p in self.parts:
            if type(p) is str:
                out.extend(p)
            elif type(p) is Atom:
                out.extend(p.cells[: (p.fixed if p.fixed is not None else lens[p])])
            else:
                out.append(p)
        return out

    def length(self):
        n, sym = 0, []
        for p in self.parts:
            if type(p) is str:
                n += len(p)
            elif type(p) is Atom:
                if p.fixed is None:
                    sym.append(p.n)
                else:
                    n += p.fixed
            else:
                n += 1
        return n if not sym else SymInt(z3.Sum([z3.IntVal(n), *sym]))

    # --- lifting ---------------------------------------------------------------------------------------------
    # --- predicates ------------------------------------------------------------------------------------------
    def __eq__(self, other):
        if type(other) is SymStr:
            return mkbool(lift(lambda a, b: cells_eq(a, b), self, other, samelen=True))
        if isinstance(other, str):
            return mkbool(lift(lambda a, b: cells_eq(a, b), self, mk(other), samelen=True))
        return False

    def __ne__(self, other):
        return Not(self.__eq__(other))

    def __bool__(self):
        n = self.length()
        return bool(n != 0)

    def __hash__(self):
        if CX.hash_ok:
            return id(self) >> 4
        raise Unsupported("hash of symbolic str")

    def _order(self, other, strict_lt):
        if not isinstance(other, str):
            return NotImplemented
        a, b = self.cells(), mk(other).cells()
        # a < b lexicographically
        res = len(a) < len(b) if strict_lt else len(a) <= len(b)
        for x, y in reversed(list(zip(a, b))):
            eq = cell_eq(x, y)
            lt = cell_lt(x, y)
            res = f_or([lt, f_and([eq, res])])
        return mkbool(res)

    def __lt__(self, o):
        return self._order(o, True)

    def __le__(self, o):
        return self._order(o, False)

    def __gt__(self, o):
        r = self._order(o, False)
        return r if r is NotImplemented else Not(r)

    def __ge__(self, o):
        r = self._order(o, True)
        return r if r is NotImplemented else Not(r)

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def contains(self, sub):
        if type(sub) is SymStr:
            s = sub
        elif isinstance(sub, str):
            s = mk(sub)
        else:
            raise TypeError(f"'in <string>' requires string as left operand, not {type(sub).__name__}")
        if not self.atoms() and all(type(p) is str for p in self.parts):
            text = "".join(self.parts)
            return mkbool(lift(lambda b: b[0].within(mask_chars(text)) if len(b) == 1 and not isinstance(b[0], str) else
                               f_or([cells_eq(text[i : i + len(b)], b) for i in range(len(text) - len(b) + 1)]), s))  # fmt: skip
        return mkbool(
            lift(lambda a, b: f_or([cells_eq(a[i : i + len(b)], b) for i in range(len(a) - len(b) + 1)]), self, s)
        )

    def startswith(self, prefix, *rng):
        if rng:
            return self[rng[0] : rng[1] if len(rng) > 1 else None].startswith(prefix)
        if type(prefix) is tuple:
            return Or(*[self.startswith(p) for p in prefix]) if prefix else False
        if not isinstance(prefix, str):
            raise TypeError("startswith first arg must be str or a tuple of str")
        return mkbool(lift(lambda a, b: len(b) <= len(a) and cells_eq(a[: len(b)], b), self, mk(prefix)))

    def endswith(self, suffix, *rng):
        if rng:
            return self[rng[0] : rng[1] if len(rng) > 1 else None].endswith(suffix)
        if type(suffix) is tuple:
            return Or(*[self.endswith(p) for p in suffix]) if suffix else False
        if not isinstance(suffix, str):
            raise TypeError("endswith first arg must be str or a tuple of str")
        return mkbool(lift(lambda a, b: len(b) <= len(a) and cells_eq(a[len(a) - len(b) :], b), self, mk(suffix)))

    def _all(self, pred, nonempty=True):
        m = mask_of(pred)
        return mkbool(lift(lambda a: (bool(a) or not nonempty) and f_and([cell_in(c, m, pred) for c in a]), self))

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return self._all(str.isascii, nonempty=False)

    def isprintable(self):
        return self._all(str.isprintable, nonempty=False)

    def _cased(self, good, bad):
        mg, mb = mask_of(good), mask_of(bad)
        return mkbool(
            lift(
                lambda a: f_and(
                    [f_or([cell_in(c, mg, good) for c in a]), *[f_not(cell_in(c, mb, bad)) for c in a]]
                ),
                self,
            )
        )

    def islower(self):
        return self._cased(str.islower, lambda c: c.isupper() or c.istitle())

    def isupper(self):
        return self._cased(str.isupper, lambda c: c.islower() or c.istitle())

    def isidentifier(self):
        st, rest = mask_of(str.isidentifier), mask_of(lambda c: ("a" + c).isidentifier())
        return mkbool(
            lift(
                lambda a: bool(a)
                and f_and(
                    [
                        cell_in(a[0], st, str.isidentifier),
                        *[cell_in(c, rest, lambda c: ("a" + c).isidentifier()) for c in a[1:]],
                    ]
                ),
                self,
            )
        )

    # --- structure -------------------------------------------------------------------------------------------
    def __add__(self, other):
        if isinstance(other, str):
            return concat([self, other])
        return NotImplemented

    def __radd__(self, other):
        if isinstance(other, str):
            return concat([other, self])
        return NotImplemented

    def __mul__(self, k):
        return concat([self] * int(k))

    __rmul__ = __mul__

    def __mod__(self, args):
        return Opaque.make("%")

    def __len__(self):
        n = self.length()
        return n if type(n) is int else n.__index__()

    def __iter__(self):
        return iter([from_cells([c]) for c in self.cells()])

    def __reversed__(self):
        return iter([from_cells([c]) for c in reversed(self.cells())])

    def __getitem__(self, i):
        cells = self.cells()
        if isinstance(i, slice):
            return from_cells(cells[i])
        return from_cells([cells[i]])

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
            raise Unsupported(f"encode({encoding})")
        return SymBytes(self)

    def _strip(self, chars, left, right):
        if chars is None:
            pred = str.isspace
            m = mask_of(pred)
        elif type(chars) is SymStr:
            raise Unsupported("strip(symbolic)")
        else:
            m = mask_chars(chars)
            pred = lambda c: c in chars
        parts = list(self.parts)
        # strip literals lazily from the ends while possible, otherwise fix
        cells = None
        if left and parts and type(parts[0]) is str and parts[0].lstrip(chars) != "" and (
            not right or (type(parts[-1]) is str and parts[-1].rstrip(chars) != "")
        ):
            parts[0] = parts[0].lstrip(chars)
            if right:
                parts[-1] = parts[-1].rstrip(chars)
            return SymStr(tuple(parts))
        cells = self.cells()
        i, j = 0, len(cells)
        if left:
            while i < j and CX.branch(cell_in(cells[i], m, pred)):
                i += 1
        if right:
            while j > i and CX.branch(cell_in(cells[j - 1], m, pred)):
                j -= 1
        return from_cells(cells[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, prefix):
        if self.startswith(prefix):
            p = mk(prefix)
            # keep the rope lazy when the prefix is a literal at the front
            if type(prefix) is str and self.parts and type(self.parts[0]) is str and self.parts[0].startswith(prefix):
                return SymStr((self.parts[0][len(prefix) :], *self.parts[1:])) if len(self.parts) > 1 else self.parts[0][len(prefix) :]
            return from_cells(self.cells()[len(p.cells()) :])
        return self

    def removesuffix(self, suffix):
        if self.endswith(suffix):
            n = len(mk(suffix).cells())
            cells = self.cells()
            return from_cells(cells[: len(cells) - n]) if n else self
        return self

    def _at(self, cells, sep, i):
        return CX.branch(cells_eq(cells[i : i + len(sep)], sep)) if i + len(sep) <= len(cells) else False

    def split(self, sep=None, maxsplit=-1):
        cells = self.cells()
        out, curp, i, n = [], [], 0, 0
        if sep is None:
            m = mask_of(str.isspace)
            while i < len(cells):
                if CX.branch(cell_in(cells[i], m, str.isspace)):
                    if curp:
                        out.append(from_cells(curp))
                        curp = []
                        n += 1
                    i += 1
                    continue
                if maxsplit >= 0 and n >= maxsplit and not curp:
                    rest = from_cells(cells[i:])
                    out.append(rest.rstrip())
                    return out
                curp.append(cells[i])
                i += 1
            if curp:
                out.append(from_cells(curp))
            return out
        s = mk(sep).cells()
        if not s:
            raise ValueError("empty separator")
        while i < len(cells):
            if (maxsplit < 0 or n < maxsplit) and self._at(cells, s, i):
                out.append(from_cells(curp))
                curp = []
                i += len(s)
                n += 1
            else:
                curp.append(cells[i])
                i += 1
        out.append(from_cells(curp))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit(None, n)")
        cells, s = self.cells(), mk(sep).cells()
        out, end, i, n = [], len(cells), len(cells) - len(s), 0
        while i >= 0 and n < maxsplit:
            if self._at(cells, s, i):
                out.append(from_cells(cells[i + len(s) : end]))
                end = i
                i -= len(s)
                n += 1
            else:
                i -= 1
        out.append(from_cells(cells[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        raise Unsupported("splitlines")

    def partition(self, sep):
        cells, s = self.cells(), mk(sep).cells()
        for i in range(len(cells) - len(s) + 1):
            if self._at(cells, s, i):
                return from_cells(cells[:i]), sep, from_cells(cells[i + len(s) :])
        return self, "", ""

    def rpartition(self, sep):
        cells, s = self.cells(), mk(sep).cells()
        for i in range(len(cells) - len(s), -1, -1):
            if self._at(cells, s, i):
                return from_cells(cells[:i]), sep, from_cells(cells[i + len(s) :])
        return "", "", self

    def replace(self, old, new, count=-1):
        if type(old) is str and len(old) == 1:
            # lazy: keep atoms that cannot contain the character
            m = mask_chars(old)
            if all(type(p) is str or not _may(p, m) for p in self.parts) and count < 0:
                return concat([p.replace(old, new) if type(p) is str and type(new) is str else SymStr((p,)) for p in self.parts])
        cells, s = self.cells(), mk(old).cells()
        newc = mk(new).cells()
        out, i, n = [], 0, 0
        if not s:
            raise Unsupported("replace('')")
        while i < len(cells):
            if (count < 0 or n < count) and self._at(cells, s, i):
                out.extend(newc)
                i += len(s)
                n += 1
            else:
                out.append(cells[i])
                i += 1
        return from_cells(out)

    def find(self, sub, start=0, end=None):
        cells, s = self.cells(), mk(sub).cells()
        start, end, _ = slice(start, end).indices(len(cells))
        for i in range(start, end - len(s) + 1):
            if self._at(cells, s, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        cells, s = self.cells(), mk(sub).cells()
        start, end, _ = slice(start, end).indices(len(cells))
        for i in range(end - len(s), start - 1, -1):
            if self._at(cells, s, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub):
        cells, s = self.cells(), mk(sub).cells()
        i = n = 0
        if not s:
            return len(cells) + 1
        while i < len(cells):
            if self._at(cells, s, i):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if k:
                out.append(self)
            if not isinstance(it, str):
                raise TypeError(f"sequence item {k}: expected str instance, {type(it).__name__} found")
            out.append(it)
        return concat(out)

    def _map(self, fn):
        """Character-wise mapping: each symbolic character becomes a function of itself (see Mapped)."""
        cells = self.cells()
        single = mask_of(lambda ch: fn(ch) in INDEX)
        odd = f_or([f_not(c.within(single)) for c in cells if not isinstance(c, str)])
        if odd is not False and CX.branch(odd):
            raise Unsupported("mapping of a character to several or to one outside the alphabet")
        same = mask_of(lambda ch: fn(ch) == ch)
        out = []
        for c in cells:
            if isinstance(c, str):
                out.extend(fn(c))
            elif not c.dom() & ~same:
                out.append(c)
            else:
                out.append(Mapped(c, fn))
        return from_cells(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        return Opaque.make("capitalize", self)

    def title(self):
        return Opaque.make("title", self)

    def format(self, *a, **k):
        return Opaque.make("format", self)

    def center(self, *a):
        return Opaque.make("center", self)

    ljust = rjust = zfill = center

    def expandtabs(self, *a):
        raise Unsupported("expandtabs")

    def translate(self, table):
        def fn(c):
            try:
                r = table[ord(c)]
            except LookupError:
                return c
            return "" if r is None else (chr(r) if isinstance(r, int) else r)

        return self._map(fn)


def _may(p, mask):
    cells = p.cells if type(p) is Atom else [p]
    return any(c.dom() & mask for c in cells)


def cells_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        e = cell_eq(x, y)
        if e is False:
            return False
        if e is not True:
            out.append(e)
    return f_and(out)


def cell_lt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(a, str):
        m = mask_of(lambda c: c > a)
        return b.within(m)
    if isinstance(b, str):
        m = mask_of(lambda c: c < b)
        return a.within(m)
    return z3.ULT(_rank(a), _rank(b))


def _rank(cell):
    """The position of a character in code point order (the order of ALPHA differs above ASCII)."""
    order = {c: i for i, c in enumerate(sorted(ALPHA))}
    e = cell.var
    for i in range(128, K):
        if order[ALPHA[i]] != i and cell.dom() >> i & 1:
            e = z3.If(cell.var == i, z3.BitVecVal(order[ALPHA[i]], 8), e)
    return e


def lift(fn, *strs, samelen=False):
    """Formula of a predicate over ropes: a finite disjunction over the lengths of their atoms."""
    if samelen and len(strs) == 2:
        # cheap syntactic cases
        a, b = strs
        if a.parts == b.parts:
            return True
        r = _peel(a, b)
        if r is False:
            return False
        if r is not None:
            a, b = r
            strs = (a, b)
    while True:
        atoms = []
        for s in strs:
            for p in s.parts:
                if type(p) is Atom and p.fixed is None and p not in atoms:
                    atoms.append(p)
        combos = 1
        for a in atoms:
            combos *= len(a.lengths)
        if combos <= _MAXCOMBOS or len(atoms) == 1 and combos <= 400:
            break
        atoms[0].fix()
    out = []

    def rec(k, lens, conds):
        if k == len(atoms):
            cl = [s.cells_with(lens) for s in strs]
            if samelen and len(cl[0]) != len(cl[1]):
                return
            v = fn(*cl)
            if v is not False:
                out.append(f_and([*conds, v]))
            return
        for v in atoms[k].lengths:
            lens[atoms[k]] = v
            rec(k + 1, lens, [*conds, atoms[k].n == v])

    rec(0, {}, [])
    if len(out) and all(o is True for o in out) and not atoms:
        return True
    res = f_or(out)
    if not isinstance(res, bool) and len(atoms) and len(out) > 1:
        pass
    return res


def _peel(a, b):
    """Strip equal prefixes of two ropes. False: certainly different; None: nothing to do."""
    pa, pb = list(a.parts), list(b.parts)
    changed = False
    while pa and pb:
        x, y = pa[0], pb[0]
        if type(x) is str and type(y) is str:
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0:1] = [x[n:]] if len(x) > n else []
            pb[0:1] = [y[n:]] if len(y) > n else []
            changed = True
        elif x is y:
            pa.pop(0)
            pb.pop(0)
            changed = True
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if type(x) is str and type(y) is str:
            n = min(len(x), len(y))
            if x[len(x) - n :] != y[len(y) - n :]:
                return False
            pa[-1:] = [x[: len(x) - n]] if len(x) > n else []
            pb[-1:] = [y[: len(y) - n]] if len(y) > n else []
            changed = True
        elif x is y:
            pa.pop()
            pb.pop()
            changed = True
        else:
            break
    if not changed:
        return None
    return SymStr(tuple(pa)), SymStr(tuple(pb))


def mk(s):
    if type(s) is SymStr:
        return s
    if isinstance(s, str):
        return SymStr((str(s),) if s else ())
    raise TypeError(f"expected str, got {type(s).__name__}")


def concat(items):
    parts = []
    for it in items:
        if type(it) is SymStr:
            if type(it) is SymStr and it.pytype is Opaque:
                return it
            parts.extend(it.parts)
        else:
            parts.append(str(it))
    out = []
    for p in parts:
        if type(p) is str:
            if not p:
                continue
            if out and type(out[-1]) is str:
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    return SymStr(tuple(out))


def from_cells(cells):
    out = []
    for c in cells:
        if isinstance(c, str):
            if out and type(out[-1]) is str:
                out[-1] += c
            else:
                out.append(c)
        else:
            out.append(c)
    if not out:
        return ""
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    return SymStr(tuple(out))


class Opaque(str):
    """Text whose exact contents are not modelled (messages). Any inspection is Unsupported."""

    @staticmethod
    def make(why, *args):
        return OpaqueStr(why)


class OpaqueStr(Sym):
    __slots__ = ("why",)
    __class__ = property(lambda self: str)

    def __init__(self, why):
        self.why = why

    def __add__(self, o):
        return self

    __radd__ = __add__

    def __repr__(self):
        return f"<opaque {self.why}>"

    def __hash__(self):
        raise Unsupported("hash of opaque text")

    def __eq__(self, o):
        raise Unsupported("comparing opaque text")

    def __ne__(self, o):
        raise Unsupported("comparing opaque text")

    def __bool__(self):
        raise Unsupported("truth of opaque text")

    def __len__(self):
        raise Unsupported("len of opaque text")

    def __getattr__(self, name):
        if name in ("strip", "lower", "upper", "capitalize", "title", "rstrip", "lstrip", "format", "replace", "join"):
            return lambda *a, **k: self
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{name} of opaque text")


class SymBytes(Sym):
    __slots__ = ("s",)
    __class__ = property(lambda self: bytes)

    def __init__(self, s):
        self.s = s

    def length(self):
        total = 0
        sym = []
        masks = [mask_of(lambda c, k=k: len(c.encode("utf-8", "surrogatepass")) == k) for k in (2, 3, 4)]
        for c in self.s.cells():
            if isinstance(c, str):
                total += len(c.encode())
            else:
                e = z3.IntVal(1)
                for k, m in zip((2, 3, 4), masks):
                    w = c.within(m)
                    if w is True:
                        e = z3.IntVal(k)
                    elif w is not False:
                        e = z3.If(w, z3.IntVal(k), e)
                sym.append(e)
        return SymInt(z3.Sum([z3.IntVal(total), *sym])) if sym else total

    def __len__(self):
        n = self.length()
        return n if type(n) is int else n.__index__()

    def __bool__(self):
        return bool(self.length() != 0)

    def __hash__(self):
        if CX.hash_ok:
            return id(self) >> 4
        raise Unsupported("hash of symbolic bytes")

    def decode(self, *a):
        return self.s


class SymHash(Sym):
    """The hash of a symbolic value: known only to be a function of the value (and taken to be injective)."""

    __slots__ = ("key",)
    __class__ = property(lambda self: int)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        if type(o) is SymHash:
            return _hash_eq(self.key, o.key)
        if isinstance(o, int):
            raise Unsupported("comparing a symbolic hash with a number")
        return False

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a hash")

    def _op(name):
        return lambda self, o: SymHash((name, self, o))

    __xor__ = __rxor__ = _op("^")
    __add__ = __radd__ = _op("+")
    __mul__ = __rmul__ = _op("*")
    __and__, __mod__, __sub__, __rsub__ = _op("&"), _op("%"), _op("-"), _op("r-")

    def __neg__(self):
        return SymHash(("neg", self))


def _hash_eq(a, b):
    if type(a) is SymHash and type(b) is SymHash:
        return _hash_eq(a.key, b.key)
    if isinstance(a, tuple) and type(a) not in SYMTYPES:
        if not isinstance(b, tuple) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = And(r, _hash_eq(x, y))
        return r
    return a == b


SYMTYPES.update({SymBool, SymInt, SymStr, OpaqueStr, SymBytes, SymHash})


# --------------------------------------------------------------------------------------------------------------
# contexts
# --------------------------------------------------------------------------------------------------------------
class Violation(BaseException):
    def __init__(self, msg):
        self.msg = msg


class SymCtx:
    """One path of a symbolic execution."""

    symbolic = True

    def __init__(self, prefix, lib, stats, max_steps=3_000_000, timeout_ms=20000):
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []  # prefixes to explore
        self.lib = lib
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", FIRST_MS)
        self.told = []
        self.answered, self.asked = self.solver, ()
        self.timeout_ms = timeout_ms
        self.dom = {}
        self.fast = {}
        self.near = None
        self.memo = {}
        self.inputs = {}
        self.notes = []
        self.reached = set()
        self.hash_ok = False
        self.steps = 0
        self.max_steps = max_steps
        self.checks = 0
        self.violations = []
        self.knowns = []
        self.opaque = 0

    # --- solver ----------------------------------------------------------------------------------------------
    def assume_raw(self, e):
        self.told.append(e)  # (the solver's own list may come back simplified)
        self.solver.add(e)

    def _sat(self, *extra):
        t = time.perf_counter()
        self.answered, self.asked = self.solver, extra
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self._harder()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.unknown:
            raise SolverUnknown(self.answered.reason_unknown())
        return r == z3.sat

    def _harder(self):
        """A query the incremental core did not answer quickly: the SAT-based core, then the first one without hurry."""
        self.solver = z3.Solver()  # an interrupted one is not used again
        self.solver.set("timeout", FIRST_MS)
        self.solver.add(*self.told)
        z3.set_param("sat.smt", True)
        try:
            r = self._afresh(self.timeout_ms)
        finally:
            z3.set_param("sat.smt", False)
        return self._afresh(3 * self.timeout_ms) if r == z3.unknown else r

    def _afresh(self, ms):
        self.answered = z3.Solver()
        self.answered.set("timeout", ms)
        self.answered.add(*self.told, *self.asked)
        return self.answered.check()

    def model(self):
        """The model of the last satisfiable query. A model is believed only if everything asked for is true in it (one
        was once seen incomplete after a time limit)."""
        for _ in range(2):
            m = self.answered.model()
            if all(z3.is_true(m.eval(e, model_completion=True)) for e in (*self.told, *self.asked)):
                return m
            if self._afresh(3 * self.timeout_ms) != z3.sat:
                break
        raise SolverUnknown("the solver gave no model")

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Diverged

    def _commit(self, cond, val):
        self.decisions.append(val)
        e = cond if val else z3.Not(cond)
        self.assume_raw(e)
        self.memo[cond.get_id()] = (val, cond)
        self._narrow(cond, val)

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        if type(cond) is SymBool:
            cond = cond.f
            if isinstance(cond, bool):
                return cond
        hit = self.memo.get(cond.get_id())
        if hit is not None:
            return hit[0]
        k = len(self.decisions)
        if k < len(self.prefix):
            val = self.prefix[k]
            self._commit(cond, val)
            return val
        self.steps += 1
        if self.steps > self.max_steps or k > 20000:
            raise Diverged
        can_true = self._sat(cond)
        if not can_true:
            # path condition is satisfiable by construction
            self._commit(cond, False)
            return False
        can_false = self._sat(z3.Not(cond))
        if can_false:
            self.alternatives.append([*self.decisions, False])
        self._commit(cond, True)
        return True

    def branch_true(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible
            return
        self.assume_raw(cond)

    def assume(self, cond):
        f = formula(cond)
        if f is True:
            return
        if f is False:
            raise Infeasible
        hit = self.memo.get(f.get_id())
        if hit is not None:
            if not hit[0]:
                raise Infeasible
            return
        if len(self.decisions) >= len(self.prefix) and not self._sat(f):
            raise Infeasible
        self.assume_raw(f)
        self._narrow(f)

    def _narrow(self, f, val=True):
        """Propagate a decided formula into the per-character domains (pure optimisation)."""
        fm = self.fast.get(f.get_id())
        if fm is not None:
            cell, m, _ = fm
            d = self.dom.get(cell.name, FULL) & (m if val else FULL & ~m)
            if d == 0:
                raise Infeasible
            self.dom[cell.name] = d
        elif z3.is_not(f):
            self._narrow(f.arg(0), not val)
        elif (z3.is_and(f) and val) or (z3.is_or(f) and not val):
            for a in f.children():
                self._narrow(a, val)

    def enumerate_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(65):
            # propose a value (deterministic given the prefix): recorded as a branch
            k = len(self.decisions)
            if k < len(self.prefix):
                v = self.prefix[k]
                if isinstance(v, tuple):
                    self.decisions.append(v)
                    if v[0] == "=":
                        self.assume_raw(e == v[1])
                        return v[1]
                    self.assume_raw(e != v[1])
                    continue
                raise RuntimeError("decision replay mismatch")
            if not self._sat():
                raise Infeasible
            v = self.model().eval(e, model_completion=True).as_long()
            if self._sat(e != v):
                self.alternatives.append([*self.decisions, ("!", v)])
            self.decisions.append(("=", v))
            self.assume_raw(e == v)
            return v
        raise Unsupported("integer with too many values used as an index")

    # --- inputs ----------------------------------------------------------------------------------------------
    def _around(self, name, lengths, dom):
        """One text of a path may also be built around a text constant that is new in the source."""
        if self.near is not None or min(lengths) > 1 or max(lengths) < 1:
            return None
        texts = [t for t in NEAR if t and not mask_chars(t) & ~dom]
        c = self.choose(name + "#near", 1 + len(texts)) if texts else 0
        if not c:
            return None
        self.near = name
        return SymStr((Atom(name + "<", [0, 1], dom), texts[c - 1], Atom(name + ">", [0, 1], dom)))

    def str(self, name, lengths=4, chars=None, mask=None):
        if isinstance(lengths, int):
            lengths = range(0, lengths + 1)
        dom = FULL if chars is None and mask is None else (mask if mask is not None else mask_chars(chars))
        s = self._around(name, lengths, dom)
        if s is None:
            a = Atom(name, lengths, dom)
            s = SymStr((a,)) if max(a.lengths) > 0 else ""
        self.inputs[name] = s
        return s

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.assume_raw(v >= lo)
        if hi is not None:
            self.assume_raw(v <= hi)
        s = SymInt(v)
        self.inputs[name] = s
        return s

    def bool(self, name):
        s = SymBool(z3.Bool(name))
        self.inputs[name] = s
        return s

    def choose(self, name, n):
        """Finite choice 0..n-1, forked."""
        v = z3.Int(name)
        self.inputs[name] = SymInt(v)
        k = len(self.decisions)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = 0
            for alt in range(1, n):
                self.alternatives.append([*self.decisions, alt])
        self.decisions.append(c)
        self.assume_raw(v == c)
        return c

    def pick(self, name, options):
        options = list(options)
        return options[self.choose(name, len(options))]

    # --- outputs ---------------------------------------------------------------------------------------------
    def note(self, name, value=True):
        self.notes.append((name, value))

    def reach(self, label):
        self.reached.add(label)

    def check(self, cond, msg, known=None):
        """Assert. ``known``: {finding id: condition identifying exactly the listed inputs}."""
        self.checks += 1
        self.stats["obligations"] += 1
        f = formula(cond)
        if f is True:
            return
        neg = f_not(f)
        kconds = [(kid, formula(kc)) for kid, kc in (known or {}).items()]
        kconds = [(kid, kf) for kid, kf in kconds if kf is not False]
        # inputs on which this assertion is not (or no longer) of interest after this point: the failing ones
        if len(self.decisions) >= len(self.prefix):
            # (otherwise already decided on the sibling path that created this prefix, where the prefix was shorter)
            for kid, kf in kconds:
                if self._sat(*[e for e in (neg, kf) if e is not True]):
                    self.knowns.append((kid, msg, self.extract()))
            extra = [neg, *[f_not(kf) for _, kf in kconds]]
            if not any(e is False for e in extra) and self._sat(*[e for e in extra if e is not True]):
                self.violations.append((msg, self.extract()))
        if f is False:
            raise Infeasible
        self.assume(f)

    def extract(self, m=None):
        m = m or self.model()
        return {n: concretize(m, v) for n, v in self.inputs.items()}


def concretize(model, v):
    t = type(v)
    if t is SymInt:
        return model.eval(v.e, model_completion=True).as_long()
    if t is SymBool:
        return z3.is_true(model.eval(v.f if not isinstance(v.f, bool) else z3.BoolVal(v.f), model_completion=True))
    if t is SymStr:
        out = []
        for p in v.parts:
            if type(p) is str:
                out.append(p)
            elif type(p) is Atom:
                n = model.eval(p.n, model_completion=True).as_long()
                out.extend(_chr(model, c) for c in p.cells[:n])
            else:
                out.append(_chr(model, p))
        return "".join(out)
    if t is OpaqueStr:
        return "<opaque>"
    if isinstance(v, (list, tuple)):
        return [concretize(model, x) for x in v]
    if isinstance(v, dict):
        return {concretize(model, k): concretize(model, x) for k, x in v.items()}
    return v


def _chr(model, c):
    i = model.eval(c.var, model_completion=True).as_long()
    return ALPHA[i] if i < K else "?"


class ConcreteCtx:
    """Replays a harness on concrete inputs against the real library."""

    symbolic = False

    def __init__(self, inputs, lib):
        self.given = inputs
        self.lib = lib
        self.notes = []
        self.reached = set()
        self.failed = []

    def str(self, name, lengths=4, chars=None, mask=None):
        s = self.given.get(name, "")
        if not self.given.get(name + "#near"):
            dom = FULL if chars is None and mask is None else (mask if mask is not None else mask_chars(chars))
            if len(s) not in (range(lengths + 1) if isinstance(lengths, int) else lengths) or mask_chars(s) & ~dom:
                raise Infeasible  # not an input of this harness
        return s

    def int(self, name, lo=None, hi=None):
        i = self.given.get(name, 0)
        if (lo is not None and i < lo) or (hi is not None and i > hi):
            raise Infeasible
        return i

    def bool(self, name):
        return self.given.get(name, False)

    def choose(self, name, n):
        i = self.given.get(name, 0)
        if not 0 <= i < n:
            raise Infeasible  # not an input of this harness
        return i

    def pick(self, name, options):
        options = list(options)
        return options[self.choose(name, len(options))]

    def note(self, name, value=True):
        self.notes.append((name, value))

    def reach(self, label):
        self.reached.add(label)

    def assume(self, cond):
        if not cond:
            raise Infeasible

    def check(self, cond, msg, known=None):
        if not bool(cond):
            for kid, kc in (known or {}).items():
                if bool(kc) and not self.given.get("!ignore_known"):
                    raise Infeasible
            self.failed.append(msg)
            raise Violation(msg)

    def tick(self):
        pass
