"""Hash-consed Boolean / bit-vector terms with constant folding.

An *element* is a Python bool (Boolean constant), a Python int in [0, 2**w) (bit-vector constant) or a
`T` node.  Node width w == 0 means Boolean.  All constructors fold constants, so the same contract text
evaluates to plain Python values on concrete data.
"""
from __future__ import annotations

_tab: dict = {}
_ctr = [0]


class T:
    __slots__ = ("op", "args", "w", "p", "id", "fd")

    def __repr__(self):
        if self.op == "var":
            return f"{self.p}"
        return f"({self.op}{'' if self.p is None else '[' + str(self.p) + ']'} {' '.join(map(repr, self.args))})"

    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool")

    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other


def _key(a):
    if isinstance(a, T):
        return a.id
    if isinstance(a, bool):
        return ("b", a)
    return ("i", a)


def mk(op, args, w, p=None):
    k = (op, tuple(_key(a) for a in args), w, p)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.w, t.p = op, tuple(args), w, p
        _ctr[0] += 1
        t.id = _ctr[0]
        t.fd = None
        _tab[k] = t
    return t


def reset():
    _tab.clear()
    _fdcache.clear()


def var(name, w):
    return mk("var", (), w, name)


def isT(x):
    return isinstance(x, T)


# ---------------------------------------------------------------- Booleans
def not_(a):
    if a is True:
        return False
    if a is False:
        return True
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), 0)


def and_(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a is b:
        return a
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return False
    # absorption
    if b.op == "and" and (b.args[0] is a or b.args[1] is a):
        return b
    if a.op == "and" and (a.args[0] is b or a.args[1] is b):
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("and", (a, b), 0)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def and_all(xs):
    r = True
    for x in xs:
        r = and_(r, x)
        if r is False:
            return False
    return r


def or_all(xs):
    r = False
    for x in xs:
        r = or_(r, x)
        if r is True:
            return True
    return r


def xor_(a, b):
    if isinstance(a, bool):
        return not_(b) if a else b
    if isinstance(b, bool):
        return not_(a) if b else a
    if a is b:
        return False
    if a.op == "not":
        return not_(xor_(a.args[0], b))
    if b.op == "not":
        return not_(xor_(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return mk("xor", (a, b), 0)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (not isT(a) and not isT(b) and type(a) is type(b) and a == b):
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    isb = isinstance(a, bool) or isinstance(b, bool) or (isT(a) and a.w == 0) or (isT(b) and b.w == 0)
    if isb:
        if a is True:
            return or_(c, b)
        if a is False:
            return and_(not_(c), b)
        if b is True:
            return or_(not_(c), a)
        if b is False:
            return and_(c, a)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
    w = 0 if isb else (a.w if isT(a) else b.w if isT(b) else None)
    # nested same condition
    if isT(a) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isT(b) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b or (not isT(a) and not isT(b) and type(a) is type(b) and a == b):
        return a
    if isT(b) and b.op == "ite" and _same(b.args[1], a):
        # ite(c, a, ite(d, a, x)) = ite(c|d, a, x)
        return ite_w(or_(c, b.args[0]), a, b.args[2], w) if w is not None else ite(or_(c, b.args[0]), a, b.args[2])
    if w is None:
        # two distinct integer constants: width unknown here; carried by caller through ite_w
        raise ValueError("ite of two integer constants needs a width: use ite_w")
    return mk("ite", (c, a, b), w)


def _same(a, b):
    return a is b or (not isT(a) and not isT(b) and type(a) is type(b) and a == b)


def ite_w(c, a, b, w):
    """ite with explicit width (0 = bool)."""
    if w == 0 or isT(a) or isT(b):
        return ite(c, a, b)
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    return mk("ite", (c, a, b), w)


# ---------------------------------------------------------------- finite-domain values
_fdcache: dict = {}
FD_MAX = 24


def fd_leaves(t):
    """Set of constants of an ite-tree with constant leaves (else None)."""
    if not isT(t):
        return frozenset((t,))
    if t.fd is None:
        r = False
        if t.op == "ite":
            a = fd_leaves(t.args[1])
            if a:
                b = fd_leaves(t.args[2])
                if b and len(a | b) <= FD_MAX:
                    r = a | b
        t.fd = r
    return t.fd or None


def fd_map(t, f, w, tag):
    """Apply constant function f to the leaves of an ite-tree with constant leaves."""
    if not isT(t):
        return f(t)
    k = (tag, t.id)
    r = _fdcache.get(k)
    if r is None:
        r = ite_w(t.args[0], fd_map(t.args[1], f, w, tag), fd_map(t.args[2], f, w, tag), w)
        _fdcache[k] = r
    return r


def _m(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


_FOLD = {
    "add": lambda a, b, w: (a + b) & _m(w),
    "sub": lambda a, b, w: (a - b) & _m(w),
    "mul": lambda a, b, w: (a * b) & _m(w),
    "bvand": lambda a, b, w: a & b,
    "bvor": lambda a, b, w: a | b,
    "bvxor": lambda a, b, w: a ^ b,
    "shl": lambda a, b, w: (a << b) & _m(w) if b < w else 0,
    "lshr": lambda a, b, w: a >> b if b < w else 0,
    "ashr": lambda a, b, w: (sgn(a, w) >> min(b, w - 1)) & _m(w),
    "udiv": lambda a, b, w: a // b if b else _m(w),
    "urem": lambda a, b, w: a % b if b else a,
    "sdiv": lambda a, b, w: _sdiv(a, b, w),
    "srem": lambda a, b, w: _srem(a, b, w),
}
_FOLDC = {
    "eq": lambda a, b, w: a == b,
    "ult": lambda a, b, w: a < b,
    "slt": lambda a, b, w: sgn(a, w) < sgn(b, w),
}


def _sdiv(a, b, w):
    x, y = sgn(a, w), sgn(b, w)
    if y == 0:
        return _m(w)  # XLA CPU: -1
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    return q & _m(w)


def _srem(a, b, w):
    x, y = sgn(a, w), sgn(b, w)
    if y == 0:
        return a
    r = abs(x) % abs(y)
    return (-r if x < 0 else r) & _m(w)


def bin_(op, a, b, w):
    """Binary bit-vector operation."""
    if w == 0:
        raise ValueError("bin_ on booleans")
    ta, tb = isT(a), isT(b)
    if not ta and not tb:
        return _FOLD[op](a, b, w)
    if op in ("add", "bvor", "bvxor") and not ta and a == 0:
        return b
    if op in ("add", "sub", "bvor", "bvxor", "shl", "lshr", "ashr") and not tb and b == 0:
        return a
    if op == "mul":
        if (not ta and a == 0) or (not tb and b == 0):
            return 0
        if not ta and a == 1:
            return b
        if not tb and b == 1:
            return a
    if op == "bvand":
        if (not ta and a == 0) or (not tb and b == 0):
            return 0
        if not ta and a == _m(w):
            return b
        if not tb and b == _m(w):
            return a
        if a is b:
            return a
    if op == "bvor":
        if (not ta and a == _m(w)) or (not tb and b == _m(w)):
            return _m(w)
        if a is b:
            return a
    if op in ("sub", "bvxor") and a is b:
        return 0
    if op in ("shl", "lshr") and not tb and b >= w:
        return 0
    if op in ("udiv",) and not tb and b == 1:
        return a
    if op in ("udiv", "urem") and BOUND and w == 32 and ta and tb and b.op == "var" and b.p.startswith("dim!"):
        s = _div_size(op, a, b)
        if s is not None:
            return s
    if op in ("udiv", "urem") and BOUND and w == 32 and ta and not tb and b > 1:
        s = _divrem(op, a, b, w)
        if s is not None:
            return s
    if ta and not tb and fd_leaves(a):
        return fd_map(a, lambda x: _FOLD[op](x, b, w), w, (op, "r", b, w))
    if tb and not ta and fd_leaves(b):
        return fd_map(b, lambda x: _FOLD[op](a, x, w), w, (op, "l", a, w))
    if op == "add" and not ta:
        a, b, ta, tb = b, a, tb, ta
    if op == "add" and not tb and a.op == "add" and not isT(a.args[1]):
        return bin_("add", a.args[0], (a.args[1] + b) & _m(w), w)
    if op == "sub" and not tb:
        return bin_("add", a, (-b) & _m(w), w)
    if op == "sub" and ta and a.op == "add" and a.args[0] is b:
        return a.args[1]
    if op == "sub" and ta and a.op == "add" and a.args[1] is b:
        return a.args[0]
    if op == "sub" and BOUND and w == 32 and ta and tb:
        # sums with the same symbolic part
        (x, c), (y, d) = _linear(a, w), _linear(b, w)
        if {i: k for i, (_, k) in x.items()} == {i: k for i, (_, k) in y.items()}:
            return (c - d) & _m(w)
    if op == "sub" and ta and tb and b.op == "add" and b.args[0] is a and not isT(b.args[1]):
        return -b.args[1] & _m(w)
    if op in ("mul", "bvand", "bvor", "bvxor"):
        if not ta:
            a, b, ta, tb = b, a, tb, ta
        elif tb and a.id > b.id:
            a, b = b, a
    if op in ("bvand", "bvor", "bvxor") and ta and not tb and a.op == op and not isT(a.args[1]):
        return bin_(op, a.args[0], _FOLD[op](a.args[1], b, w), w)
    # bit-field simplifications on concat/extract/shift by constants (packing code)
    if not tb:
        s = _bits_simpl(op, a, b, w)
        if s is not None:
            return s
    if op in ("bvor", "add", "bvxor") and ta and tb:
        s = _or_disjoint(a, b, w)
        if s is not None:
            return s
    return mk(op, (a, b), w)


# A term may be viewed as a list of bit fields (lo -> hi): (width, element, lo-offset in element) or constant.
def pieces(t, w, depth=0):
    """Canonical list of (width, src) low to high; src is int constant or (term, lo)."""
    if not isT(t):
        return [(w, t)]
    if t.op == "concat":
        return list(t.p)
    return [(w, (t, 0))]


def from_pieces(ps, w):
    out = []
    for n, s in ps:
        if n == 0:
            continue
        if out:
            pn, psrc = out[-1]
            if isinstance(psrc, int) and isinstance(s, int):
                out[-1] = (pn + n, psrc | (s << pn))
                continue
            if (
                not isinstance(psrc, int)
                and not isinstance(s, int)
                and psrc[0] is s[0]
                and psrc[1] + pn == s[1]
            ):
                out[-1] = (pn + n, psrc)
                continue
        out.append((n, s))
    if len(out) == 1:
        n, s = out[0]
        if isinstance(s, int):
            return s
        if s[1] == 0 and n == s[0].w:
            return s[0]
    key = tuple((n, s if isinstance(s, int) else (s[0], s[1])) for n, s in out)
    k2 = tuple((n, ("i", s) if isinstance(s, int) else (s[0].id, s[1])) for n, s in out)
    k = ("concat", k2, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.p = "concat", w, key
        t.args = tuple(s[0] for n, s in key if not isinstance(s, int))
        _ctr[0] += 1
        t.id = _ctr[0]
        t.fd = None
        _tab[k] = t
    return t


def slice_pieces(ps, lo, n):
    out = []
    pos = 0
    for pn, s in ps:
        a, b = max(lo, pos), min(lo + n, pos + pn)
        if a < b:
            off = a - pos
            ln = b - a
            if isinstance(s, int):
                out.append((ln, (s >> off) & _m(ln)))
            else:
                out.append((ln, (s[0], s[1] + off)))
        pos += pn
    return out


def _bits_simpl(op, a, b, w):
    if op == "shl":
        ps = pieces(a, w)
        return from_pieces([(b, 0)] + slice_pieces(ps, 0, w - b), w)
    if op == "lshr":
        ps = pieces(a, w)
        return from_pieces(slice_pieces(ps, b, w - b) + [(b, 0)], w)
    if op == "bvand":
        # constant mask: keep runs
        ps = pieces(a, w)
        out = []
        i = 0
        while i < w:
            bit = (b >> i) & 1
            j = i
            while j < w and ((b >> j) & 1) == bit:
                j += 1
            if bit:
                out += slice_pieces(ps, i, j - i)
            else:
                out.append((j - i, 0))
            i = j
            if len(out) > 64:
                return None
        return from_pieces(out, w)
    if op == "bvor":
        ps = pieces(a, w)
        if len(ps) == 1:
            return None
        return None
    if op == "mul":
        if b & (b - 1) == 0:
            return _bits_simpl("shl", a, b.bit_length() - 1, w)
    if op == "udiv":
        if b and b & (b - 1) == 0:
            return _bits_simpl("lshr", a, b.bit_length() - 1, w)
    if op == "urem":
        if b and b & (b - 1) == 0:
            return _bits_simpl("bvand", a, b - 1, w)
    return None


def _or_disjoint(a, b, w):
    """a|b (a+b, a^b) where at every bit position at least one is constant 0."""
    if a.op != "concat" and b.op != "concat":
        return None
    pa, pb = pieces(a, w), pieces(b, w)
    cuts = {0, w}
    for ps in (pa, pb):
        pos = 0
        for n, _ in ps:
            cuts.add(pos)
            pos += n
    cuts = sorted(cuts)
    out = []
    for lo, hi in zip(cuts, cuts[1:]):
        (na, sa), = slice_pieces(pa, lo, hi - lo)
        (nb, sb), = slice_pieces(pb, lo, hi - lo)
        if isinstance(sa, int) and sa == 0:
            out.append((nb, sb))
        elif isinstance(sb, int) and sb == 0:
            out.append((na, sa))
        else:
            return None
    return from_pieces(out, w)


def bnot(a, w):
    if not isT(a):
        return a ^ _m(w)
    if a.op == "bvnot":
        return a.args[0]
    if fd_leaves(a):
        return fd_map(a, lambda x: x ^ _m(w), w, ("bvnot", w))
    return mk("bvnot", (a,), w)


def neg(a, w):
    return bin_("sub", 0, a, w)


def zext(a, w0, w1):
    if w1 == w0:
        return a
    if not isT(a):
        return a
    if fd_leaves(a):
        return fd_map(a, lambda x: x, w1, ("zext", w0, w1))
    return from_pieces(pieces(a, w0) + [(w1 - w0, 0)], w1)


def sext(a, w0, w1):
    if w1 == w0:
        return a
    if not isT(a):
        return sgn(a, w0) & _m(w1)
    if fd_leaves(a):
        return fd_map(a, lambda x: sgn(x, w0) & _m(w1), w1, ("sext", w0, w1))
    ps = pieces(a, w0)
    n, s = ps[-1]
    if isinstance(s, int) and not (s >> (n - 1)):
        return from_pieces(ps + [(w1 - w0, 0)], w1)
    return mk("sext", (a,), w1, w0)


def trunc(a, w0, w1):
    """low w1 bits"""
    return extract(a, w0, 0, w1)


def extract(a, w0, lo, n):
    if not isT(a):
        return (a >> lo) & _m(n)
    if lo == 0 and n == w0:
        return a
    if fd_leaves(a):
        return fd_map(a, lambda x: (x >> lo) & _m(n), n, ("ext", lo, n))
    if a.op == "sext" and lo + n <= a.p:
        return extract(a.args[0], a.p, lo, n)
    if a.op == "ite" and (not isT(a.args[1]) or not isT(a.args[2])):
        return ite_w(a.args[0], extract(a.args[1], w0, lo, n), extract(a.args[2], w0, lo, n), n)
    return from_pieces(slice_pieces(pieces(a, w0), lo, n), n)


def concat(lohi):
    """lohi: list of (element, width) from low to high."""
    ps = []
    w = 0
    for e, n in lohi:
        ps += pieces(e, n)
        w += n
    return from_pieces(ps, w)


def bool2bv(b, w):
    return ite_w(b, 1, 0, w)


def eq(a, b, w):
    if w == 0:
        return not_(xor_(a, b))
    ta, tb = isT(a), isT(b)
    if not ta and not tb:
        return a == b
    if a is b:
        return True
    if not ta:
        a, b, ta, tb = b, a, tb, ta
    if not tb:
        fl = fd_leaves(a)
        if fl:
            if b not in fl:
                return False
            return fd_map(a, lambda x: x == b, 0, ("eq", b))
        if a.op == "add" and not isT(a.args[1]):
            return eq(a.args[0], (b - a.args[1]) & _m(w), w)
        if a.op == "concat":
            # split on constant pieces
            pos = 0
            rest = []
            for n, s in a.p:
                c = (b >> pos) & _m(n)
                if isinstance(s, int):
                    if s != c:
                        return False
                else:
                    rest.append((s, n, c))
                pos += n
            if len(rest) == 1:
                (t, lo), n, c = rest[0]
                if lo == 0 and n == t.w:
                    return eq(t, c, n)
                return mk("eq", (from_pieces([(n, (t, lo))], n), c), 0, n) if a.w != n else mk("eq", (a, b), 0, w)
        if a.op == "ite":
            # push eq into ite if one side is constant
            if not isT(a.args[1]) or not isT(a.args[2]):
                return ite(a.args[0], eq(a.args[1], b, w), eq(a.args[2], b, w))
    else:
        fa, fb = fd_leaves(a), fd_leaves(b)
        if fa and fb:
            if not (fa & fb):
                return False
            if len(fa) * len(fb) <= 64:
                return or_all(and_(eq(a, c, w), eq(b, c, w)) for c in sorted(fa & fb))
        if a.op == "add" and b.op == "add" and not isT(a.args[1]) and not isT(b.args[1]):
            if a.args[0] is b.args[0]:
                return a.args[1] == b.args[1]
        if a.op == "add" and not isT(a.args[1]) and a.args[0] is b:
            return a.args[1] == 0
        if b.op == "add" and not isT(b.args[1]) and b.args[0] is a:
            return b.args[1] == 0
        if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
            return ite(a.args[0], eq(a.args[1], b.args[1], w), eq(a.args[2], b.args[2], w))
        if a.id > b.id:
            a, b = b, a
    return mk("eq", (a, b), 0, w)


def _maxval(a, w, depth=0):
    """crude unsigned upper bound"""
    if not isT(a):
        return a
    fl = fd_leaves(a)
    if fl:
        return max(fl)
    if a.op == "concat":
        pos = 0
        m = 0
        for n, s in a.p:
            m |= (s if isinstance(s, int) else min(_m(n), _maxval(s[0], s[0].w, depth + 1)) if BOUND and s[1] == 0 and s[0].w == 32 and depth < 8 else _m(n)) << pos
            pos += n
        return m
    if BOUND and w == 32 and depth < 8:
        # sizes and positions, whose bounds are part of the precondition or of their definition
        if a.op in ("var", "uf"):
            return BOUND.get(a.p if a.op == "var" else a.p[0], _m(w))
        if a.op == "add":
            r = _maxval(a.args[0], w, depth + 1) + _maxval(a.args[1], w, depth + 1)
            return min(r, _m(w))
        if a.op == "ite":
            return max(_maxval(a.args[1], w, depth + 1), _maxval(a.args[2], w, depth + 1))
        if a.op == "mul" and isT(a.args[1]) and PRODMAX[0] is not None and _index_product(a):
            return PRODMAX[0]
        if a.op == "mul" and not isT(a.args[1]):
            return min(_maxval(a.args[0], w, depth + 1) * a.args[1], _m(w))
        if a.op == "udiv" and not isT(a.args[1]) and a.args[1]:
            return _maxval(a.args[0], w, depth + 1) // a.args[1]
        if a.op == "urem" and not isT(a.args[1]) and a.args[1]:
            return min(a.args[1] - 1, _maxval(a.args[0], w, depth + 1))
    return _m(w)


def _linear(a, w, depth=0):
    """{id: (term, coefficient)}, constant with a = sum mod 2**w (w = 32, positions)"""
    if not isT(a):
        return {}, a
    if depth < 6:
        if a.op == "add":
            (x, c), (y, d) = _linear(a.args[0], w, depth + 1), _linear(a.args[1], w, depth + 1)
            r = dict(x)
            for i, (t, k) in y.items():
                r[i] = (t, (r[i][1] if i in r else 0) + k)
            return r, c + d
        if a.op == "mul" and not isT(a.args[1]):
            x, c = _linear(a.args[0], w, depth + 1)
            return {i: (t, k * a.args[1]) for i, (t, k) in x.items()}, c * a.args[1]
        if a.op == "concat":
            r, c, pos = {}, 0, 0
            for n, s in a.p:
                if isinstance(s, int):
                    c += s << pos
                elif s[1] == 0 and s[0].w == w and _maxval(s[0], w) < (1 << n):
                    x, d = _linear(s[0], w, depth + 1)
                    c += d << pos
                    for i, (t, k) in x.items():
                        r[i] = (t, (r[i][1] if i in r else 0) + (k << pos))
                else:
                    return {a.id: (a, 1)}, 0
                pos += n
            return r, c
    return {a.id: (a, 1)}, 0


def _lin_term(x, c, w):
    r = c
    for t, k in x.values():
        r = bin_("add", bin_("mul", t, k, w), r, w)
    return r


def _divrem(op, a, c, w):
    """division of a sum by a constant: multiples of the constant come out, when nothing wraps around"""
    x, d = _linear(a, w)
    if sum(k * _maxval(t, w) for t, k in x.values()) + d > _m(w):
        return None
    q = {i: (t, k // c) for i, (t, k) in x.items() if k // c}
    r = {i: (t, k % c) for i, (t, k) in x.items() if k % c}
    if not q and d < c:
        if sum(k * _maxval(t, w) for t, k in r.values()) + d < c:
            return a if op == "urem" else 0
        return None
    rest = _lin_term(r, d % c, w)
    if op == "urem":
        return bin_("urem", rest, c, w)
    return bin_("add", _lin_term(q, d // c, w), bin_("udiv", rest, c, w), w)


LT: dict = {}  # index variable name -> ids of the sizes it is below
PRODMAX = [None]  # bound on products of different sizes, once it is part of the precondition (sizes are multiplied)


def _index_product(a):
    """(index below some size) * size"""
    for x, d in (a.args, a.args[::-1]):
        if d.op == "var" and d.p.startswith("dim!") and x.op == "var" and x.p in LT and d.id not in LT[x.p]:
            return x, d
    return None


def _below_product(a, b):
    """index * m + index' < n * m for indices below n and m"""
    if PRODMAX[0] is None or not all(isT(x) and x.op == "var" and x.p.startswith("dim!") for x in b.args):
        return False
    m, j = a, None
    if a.op == "add" and isT(a.args[1]):
        for m, j in (a.args, a.args[::-1]):
            if m.op == "mul" and isT(m.args[1]) and j.op == "var" and j.p in LT:
                break
        else:
            return False
    if m.op != "mul" or not isT(m.args[1]):
        return False
    for n, d in (b.args, b.args[::-1]):
        for x, e in (m.args, m.args[::-1]):
            if e is d and n is not d and x.op == "var" and n.id in LT.get(x.p, ()) and (j is None or d.id in LT[j.p]):
                return True
    return False


def _div_size(op, a, d):
    """division of index * size + index' by the size"""
    if PRODMAX[0] is None:
        return None
    m, j = a, None
    if a.op == "add" and isT(a.args[1]):
        for m, j in (a.args, a.args[::-1]):
            if m.op == "mul" and isT(m.args[1]) and j.op == "var" and d.id in LT.get(j.p, ()):
                break
        else:
            return None
    if m.op != "mul" or not isT(m.args[1]):
        return None
    p = _index_product(m)
    if p is None:
        return None
    x = m.args[0] if m.args[1] is d else m.args[1] if m.args[0] is d else None
    if x is None or x.op != "var" or x.p not in LT:
        return None
    return x if op == "udiv" else (0 if j is None else j)


BOUND: dict = {}  # 32-bit variable / function name -> upper bound


def ult(a, b, w):
    ta, tb = isT(a), isT(b)
    if not ta and not tb:
        return a < b
    if a is b:
        return False
    if not tb:
        if b == 0:
            return False
        if fd_leaves(a):
            return fd_map(a, lambda x: x < b, 0, ("ult", b))
        if _maxval(a, w) < b:
            return True
    if not ta:
        if a == _m(w):
            return False
        if fd_leaves(b):
            return fd_map(b, lambda x: a < x, 0, ("ultl", a))
        if _maxval(b, w) <= a:
            return False
    if ta and tb:
        fa, fb = fd_leaves(a), fd_leaves(b)
        if fa and fb and len(fa) * len(fb) <= 64:
            return or_all(and_(eq(a, c, w), ult(c, b, w)) for c in sorted(fa))
    if w == 32 and BOUND and isT(a) and isT(b) and b.op == "mul" and _below_product(a, b):
        return True
    return mk("ult", (a, b), 0, w)


def ule(a, b, w):
    return not_(ult(b, a, w))


def slt(a, b, w):
    ta, tb = isT(a), isT(b)
    if not ta and not tb:
        return sgn(a, w) < sgn(b, w)
    if a is b:
        return False
    if not tb and fd_leaves(a):
        return fd_map(a, lambda x: sgn(x, w) < sgn(b, w), 0, ("slt", b, w))
    if not ta and fd_leaves(b):
        return fd_map(b, lambda x: sgn(a, w) < sgn(x, w), 0, ("sltl", a, w))
    if ta and tb:
        fa, fb = fd_leaves(a), fd_leaves(b)
        if fa and fb and len(fa) * len(fb) <= 64:
            return or_all(and_(eq(a, c, w), slt(c, b, w)) for c in sorted(fa))
    # both provably non-negative -> unsigned comparison
    h = 1 << (w - 1)
    ma, mb = _maxval(a, w), _maxval(b, w)
    if ma < h and mb < h:
        return ult(a, b, w)
    if not tb and b == 0 and ma < h:
        return False
    if not tb and b == 0:
        return _signbit(a, w)
    return mk("slt", (a, b), 0, w)


def _signbit(a, w):
    if not isT(a):
        return bool(a >> (w - 1))
    return mk("slt", (a, 0), 0, w)


def sle(a, b, w):
    return not_(slt(b, a, w))


def uf(name, args, w):
    """Uninterpreted function application; args is a tuple of (element, width)."""
    return mk("uf", tuple(a for a, _ in args), w, (name, tuple(n for _, n in args)))


def i2f(a, w, fw, signed):
    """integer -> float (raw bits) round-to-nearest-even"""
    if not isT(a):
        return _i2f_const(sgn(a, w) if signed else a, fw)
    if fd_leaves(a):
        return fd_map(a, lambda x: _i2f_const(sgn(x, w) if signed else x, fw), fw, ("i2f", w, fw, signed))
    return mk("i2f", (a,), fw, (w, signed))


def _i2f_const(x, fw):
    import numpy as np

    dt = {16: np.float16, 32: np.float32, 64: np.float64}[fw]
    u = {16: np.uint16, 32: np.uint32, 64: np.uint64}[fw]
    if fw == 64:
        return int(np.array(float(x), dt).view(u))
    # exact double rounding is avoided by going through Python ints -> correctly rounded division
    import fractions

    v = np.array(x, dtype=np.int64 if x < 2**63 else np.uint64).astype(dt)
    return int(v.view(u))


# ---------------------------------------------------------------- evaluation
def evaluate(ts, env, ufs=None):
    """Evaluate elements under env: var name -> int/bool.  ufs: name -> callable(*ints) -> int."""
    memo: dict = {}

    def ev(root):
        if not isT(root):
            return root
        st = [root]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            op = t.op
            if op == "ite":
                c = t.args[0]
                if isT(c) and c.id not in memo:
                    st.append(c)
                    continue
                cv = memo[c.id] if isT(c) else c
                b = t.args[1] if cv else t.args[2]
                if isT(b) and b.id not in memo:
                    st.append(b)
                    continue
                memo[t.id] = memo[b.id] if isT(b) else b
                st.pop()
                continue
            pend = [a for a in t.args if isT(a) and a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            v = [memo[a.id] if isT(a) else a for a in t.args]
            if op == "var":
                r = env[t.p]
            elif op == "not":
                r = not v[0]
            elif op == "and":
                r = v[0] and v[1]
            elif op == "xor":
                r = v[0] != v[1]
            elif op in _FOLD:
                r = _FOLD[op](v[0], v[1], t.w)
            elif op in _FOLDC:
                r = _FOLDC[op](v[0], v[1], t.p)
            elif op == "bvnot":
                r = v[0] ^ _m(t.w)
            elif op == "sext":
                r = sgn(v[0], t.p) & _m(t.w)
            elif op == "concat":
                r = 0
                pos = 0
                for n, s in t.p:
                    x = s if isinstance(s, int) else (memo[s[0].id] >> s[1]) & _m(n)
                    r |= x << pos
                    pos += n
            elif op == "uf":
                r = ufs[t.p[0]](*v)
            elif op == "i2f":
                w, signed = t.p
                r = _i2f_const(sgn(v[0], w) if signed else v[0], t.w)
            else:
                raise NotImplementedError(op)
            memo[t.id] = r
        return memo[root.id]

    return [ev(t) for t in ts]


def collect_vars(ts):
    seen = set()
    out = {}
    st = [t for t in ts if isT(t)]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "var":
            out[t.p] = t.w
        st.extend(a for a in t.args if isT(a))
    return out


def size(ts):
    seen = set()
    st = [t for t in ts if isT(t)]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        st.extend(a for a in t.args if isT(a) and a.id not in seen)
    return len(seen)
