"""Regular expressions over symbolic strings (semantics of Python's ``re`` on str patterns)."""

import re
import re._constants as sc
import re._parser as sp

from . import engine as en
from .engine import SymStr, Unsupported, cell_in, f_and, f_not, f_or, from_cells, mk

_cache = {}


def parse(pattern):
    """pattern: a compiled re.Pattern over str."""
    key = (pattern.pattern, pattern.flags)
    r = _cache.get(key)
    if r is None:
        if not isinstance(pattern.pattern, str):
            raise Unsupported("bytes pattern")
        tree = sp.parse(pattern.pattern, pattern.flags & ~re.DEBUG)
        r = (tree, tree.state.groups, dict(tree.state.groupdict), tree.state.flags | pattern.flags)
        _cache[key] = r
    return r


_CAT = {
    sc.CATEGORY_DIGIT: (str.isdecimal, "0123456789"),
    sc.CATEGORY_SPACE: (str.isspace, " \t\n\r\f\v"),
    sc.CATEGORY_WORD: (lambda c: c.isalnum() or c == "_", None),
}
_NEG = {
    sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT,
    sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE,
    sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD,
}


def _cat(cat, ch, flags):
    if cat in _NEG:
        return not _cat(_NEG[cat], ch, flags)
    fn, _ = _CAT[cat]
    if flags & re.ASCII and ord(ch) > 127:
        return False
    return fn(ch)


def _one(op, av, ch, flags):
    """Does the single-character node match the concrete character?"""
    if flags & re.IGNORECASE:
        variants = {ch} | {v for v in (ch.lower(), ch.upper(), ch.lower().upper(), ch.upper().lower()) if len(v) == 1}
        if flags & re.ASCII:
            variants = {v for v in variants if v == ch or (ord(v) < 128 and ord(ch) < 128)}
        if op is sc.NOT_LITERAL:
            return chr(av) not in variants
        if op is sc.IN and av and av[0][0] is sc.NEGATE:
            return not any(_in(av[1:], v, flags) for v in variants)
        return any(_one_cs(op, av, v, flags) for v in variants)
    return _one_cs(op, av, ch, flags)


def _one_cs(op, av, ch, flags):
    if op is sc.LITERAL:
        return ord(ch) == av
    if op is sc.NOT_LITERAL:
        return ord(ch) != av
    if op is sc.ANY:
        return bool(flags & re.DOTALL) or ch != "\n"
    if op is sc.IN:
        if av[0][0] is sc.NEGATE:
            return not _in(av[1:], ch, flags)
        return _in(av, ch, flags)
    raise Unsupported(f"regex op {op}")


def _in(items, ch, flags):
    o = ord(ch)
    for op, av in items:
        if op is sc.LITERAL:
            if o == av:
                return True
        elif op is sc.RANGE:
            if av[0] <= o <= av[1]:
                return True
        elif op is sc.CATEGORY:
            if _cat(av, ch, flags):
                return True
        else:
            raise Unsupported(f"regex set item {op}")
    return False


_SINGLE = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)
_masks = {}


def _single(node, flags):
    op, av = node
    key = (op, repr(av), flags & (re.I | re.A | re.S))
    r = _masks.get(key)
    if r is None:
        pred = lambda c: _one(op, av, c, flags)
        r = (en.mask_of(pred), pred)
        _masks[key] = r
    return r


_WORDP = lambda c: c.isalnum() or c == "_"
_WORDPA = lambda c: ord(c) < 128 and (c.isalnum() or c == "_")


class Matcher:
    def __init__(self, pattern, cells):
        self.tree, self.ngroups, self.names, self.flags = parse(pattern)
        self.cells = cells
        self.n = len(cells)
        self.memo = {}
        self.m_word = None

    # --- boolean (formula) matching ---------------------------------------------------------------------------
    def at(self, av, i, flags):
        n = self.n
        nl = lambda k: cell_in(self.cells[k], en.mask_chars("\n"), lambda c: c == "\n")
        if av is sc.AT_BEGINNING:
            if flags & re.MULTILINE:
                return True if i == 0 else nl(i - 1)
            return i == 0
        if av is sc.AT_BEGINNING_STRING:
            return i == 0
        if av is sc.AT_END:
            if i == n:
                return True
            if flags & re.MULTILINE:
                return nl(i)
            return nl(i) if i == n - 1 else False
        if av is sc.AT_END_STRING:
            return i == n
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            pred = _WORDPA if flags & re.ASCII else _WORDP
            m = en.mask_of(pred)
            a = cell_in(self.cells[i - 1], m, pred) if i > 0 else False
            b = cell_in(self.cells[i], m, pred) if i < n else False
            x = f_or([f_and([a, f_not(b)]), f_and([f_not(a), b])])
            if n == 0:
                x = False
            return x if av is sc.AT_BOUNDARY else f_not(x)
        raise Unsupported(f"regex anchor {av}")

    def ends(self, seq, k, i, flags):
        """{end: condition} for matching seq[k:] starting at i."""
        if k == len(seq):
            return {i: True}
        key = (id(seq), k, i, flags)
        r = self.memo.get(key)
        if r is not None:
            return r[0]
        out = {}
        for j, c in self.node(seq[k], i, flags).items():
            for e, c2 in self.ends(seq, k + 1, j, flags).items():
                _add(out, e, f_and([c, c2]))
        out = {e: f_or(v) for e, v in out.items()}
        out = {e: v for e, v in out.items() if v is not False}
        self.memo[key] = (out, seq)
        return out

    def node(self, node, i, flags):
        op, av = node
        if op in _SINGLE:
            if i >= self.n:
                return {}
            m, pred = _single(node, flags)
            c = cell_in(self.cells[i], m, pred)
            return {} if c is False else {i + 1: c}
        if op is sc.AT:
            c = self.at(av, i, flags)
            return {} if c is False else {i: c}
        if op is sc.BRANCH:
            out = {}
            for alt in av[1]:
                for e, c in self.ends(alt, 0, i, flags).items():
                    _add(out, e, c)
            return {e: f_or(v) for e, v in out.items()}
        if op is sc.SUBPATTERN:
            _, addf, delf, sub = av
            return self.ends(sub, 0, i, (flags | addf) & ~delf)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            cur, out = {i: True}, {}
            cnt = 0
            while True:
                if cnt >= lo:
                    for e, c in cur.items():
                        _add(out, e, c)
                if hi is not sc.MAXREPEAT and cnt >= hi:
                    break
                nxt = {}
                for j, c in cur.items():
                    for e, c2 in self.ends(sub, 0, j, flags).items():
                        if e == j and cnt >= lo:
                            continue
                        _add(nxt, e, f_and([c, c2]))
                nxt = {e: f_or(v) for e, v in nxt.items()}
                nxt = {e: v for e, v in nxt.items() if v is not False}
                cnt += 1
                if not nxt or cnt > self.n + lo + 1:
                    break
                cur = nxt
            return {e: f_or(v) for e, v in out.items()}
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            if direction > 0:
                c = f_or(list(self.ends(sub, 0, i, flags).values()))
            else:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported("lookbehind")
                c = self.ends(sub, 0, i - lo, flags).get(i, False) if i - lo >= 0 else False
            if op is sc.ASSERT_NOT:
                c = f_not(c)
            return {} if c is False else {i: c}
        raise Unsupported(f"regex op {op}")

    def test(self, mode, pos=0):
        """Formula: does the pattern match (mode: match/fullmatch/search)?"""
        if mode == "fullmatch":
            return self.ends(self.tree, 0, pos, self.flags).get(self.n, False)
        if mode == "match":
            return f_or(list(self.ends(self.tree, 0, pos, self.flags).values()))
        return f_or([c for i in range(pos, self.n + 1) for c in self.ends(self.tree, 0, i, self.flags).values()])

    # --- backtracking matching (forks on character tests) -----------------------------------------------------
    def bt(self, seq, k, i, g, flags, cont):
        if k == len(seq):
            return cont(i, g)
        op, av = node = seq[k]
        nxt = lambda j, g2: self.bt(seq, k + 1, j, g2, flags, cont)
        if op in _SINGLE:
            if i >= self.n:
                return None
            m, pred = _single(node, flags)
            if not en.CX.branch(cell_in(self.cells[i], m, pred)):
                return None
            return nxt(i + 1, g)
        if op is sc.AT:
            return nxt(i, g) if en.CX.branch(self.at(av, i, flags)) else None
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.bt(alt, 0, i, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.SUBPATTERN:
            gid, addf, delf, sub = av

            def done(j, g2):
                if gid is not None:
                    g2 = {**g2, gid: (i, j)}
                return nxt(j, g2)

            return self.bt(sub, 0, i, g, (flags | addf) & ~delf, done)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av

            def step(cnt, j, g2):
                def more():
                    if hi is not sc.MAXREPEAT and cnt >= hi:
                        return None
                    return self.bt(
                        sub, 0, j, g2, flags,
                        lambda e, g3: None if (e == j and cnt >= lo) else step(cnt + 1, e, g3),
                    )

                if cnt < lo:
                    return more()
                if op is sc.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(j, g2)
                r = nxt(j, g2)
                return r if r is not None else more()

            return step(0, i, g)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            return nxt(i, g) if any(en.CX.branch(c) for c in [f_or(list(self.node(node, i, flags).values()))]) else None
        raise Unsupported(f"regex op {op}")

    def find(self, mode, pos=0):
        if mode == "fullmatch":
            cont = lambda j, g: (j, g) if j == self.n else None
        else:
            cont = lambda j, g: (j, g)
        starts = range(pos, self.n + 1) if mode == "search" else [pos]
        for i in starts:
            r = self.bt(self.tree, 0, i, {}, self.flags, cont)
            if r is not None:
                return i, r[0], r[1]
        return None


def _add(out, e, c):
    if c is not False:
        out.setdefault(e, []).append(c)


class SymMatch:
    """A match object for a match known to exist."""

    def __init__(self, pattern, s, cells, found):
        self.re = pattern
        self.string = s
        self._cells = cells
        self._i, self._j, self._g = found
        self._names = parse(pattern)[2]
        self._n = parse(pattern)[1]

    def _span(self, k):
        if isinstance(k, str):
            k = self._names[k]
        if k == 0:
            return self._i, self._j
        if k >= self._n:
            raise IndexError("no such group")
        return self._g.get(k, (-1, -1))

    def _one(self, k, default=None):
        a, b = self._span(k)
        return default if a < 0 else from_cells(self._cells[a:b])

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self._n))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self._names.items()}

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]

    def span(self, k=0):
        return self._span(k)

    def __bool__(self):
        return True


class LazyMatch:
    """Result of match/fullmatch/search whose existence is still a formula."""

    def __init__(self, pattern, s, mode, pos=0):
        self.pattern, self.s, self.mode, self.pos = pattern, s, mode, pos
        self._f = None
        self._m = None

    def exists(self):
        if self._f is None:
            def one(cells):
                return Matcher(self.pattern, cells).test(self.mode, min(self.pos, len(cells)))

            self._f = en.mkbool(en.lift(one, self.s))
        return self._f

    def __bool__(self):
        return bool(self.exists())

    def real(self):
        if self._m is None:
            if not self:
                raise AttributeError("'NoneType' object has no attribute 'group'")
            cells = self.s.cells()
            found = Matcher(self.pattern, cells).find(self.mode, self.pos)
            if found is None:
                raise en.Infeasible
            self._m = SymMatch(self.pattern, self.s, cells, found)
        return self._m

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.real(), name)

    def __getitem__(self, k):
        return self.real()[k]


def finditer(pattern, s):
    cells = s.cells()
    m = Matcher(pattern, cells)
    pos, last_empty = 0, None
    while pos <= len(cells):
        # an empty match right after a previous match is allowed by CPython >= 3.7, but not at the same position
        found = None
        for i in range(pos, len(cells) + 1):
            cont = (lambda i: lambda j, g: None if (j == i and i == last_empty) else (j, g))(i)
            r = m.bt(m.tree, 0, i, {}, m.flags, cont)
            if r is not None:
                found = (i, r[0], r[1])
                break
        if found is None:
            return
        yield SymMatch(pattern, s, cells, found)
        pos = found[1]
        last_empty = found[1]


def sub(pattern, repl, s, count=0):
    cells = s.cells()
    out, last, n = [], 0, 0
    if isinstance(repl, str) and "\\" in repl:
        raise Unsupported("re.sub with a template")
    for mt in finditer(pattern, s):
        a, b = mt.span()
        out.append(from_cells(cells[last:a]))
        out.append(repl if isinstance(repl, str) else repl(mt))
        last = b
        n += 1
        if count and n >= count:
            break
    out.append(from_cells(cells[last:]))
    return en.concat(out), n


def split(pattern, s, maxsplit=0):
    cells = s.cells()
    out, last, n = [], 0, 0
    for mt in finditer(pattern, s):
        if maxsplit and n >= maxsplit:
            break
        a, b = mt.span()
        out.append(from_cells(cells[last:a]))
        out.extend(mt.groups())
        last = b
        n += 1
    out.append(from_cells(cells[last:]))
    return out


def findall(pattern, s):
    out = []
    for mt in finditer(pattern, s):
        g = mt.groups("")
        out.append(mt.group() if not g else (g[0] if len(g) == 1 else g))
    return out


def call(pattern, method, args, kwargs):
    """pattern.<method>(*args) where the subject is symbolic."""
    if method in ("match", "fullmatch", "search"):
        s = mk(args[0])
        pos = args[1] if len(args) > 1 else kwargs.get("pos", 0)
        if len(args) > 2 or "endpos" in kwargs or type(pos) is not int:
            raise Unsupported("regex endpos")
        if type(args[0]) is en.OpaqueStr:
            raise Unsupported("regex on opaque text")
        return LazyMatch(pattern, s, method, pos)
    if method in ("sub", "subn"):
        repl, s = args[0], mk(args[1])
        count = args[2] if len(args) > 2 else kwargs.get("count", 0)
        r = sub(pattern, repl, s, count)
        return r if method == "subn" else r[0]
    if method == "finditer":
        return finditer(pattern, mk(args[0]))
    if method == "findall":
        return findall(pattern, mk(args[0]))
    if method == "split":
        return split(pattern, mk(args[0]), *(args[1:] or ([kwargs["maxsplit"]] if "maxsplit" in kwargs else [])))
    raise Unsupported(f"re.{method}")
