"""Reference evaluator for dataflow trees: exact arithmetic, one valuation at a time.

A value is (v, x, h, w): the number, the mask of unknown bits, the mask of bits that keep their
old value ("hold", an absent branch), and the width.  Evaluation is exact: where a result does
not fit its own width, or where a negative number meets an unsigned operation, or where an
inverted value would be extended by its context, the expression is outside the judged domain
(Skip) because its value then depends on what surrounds it.
Numbers carry no sign type in these trees, so an inverted signed number (~1) is a bit pattern and
is not judged where its value as a number matters (comparison, shift, division, power).
"""
import re

from pyverilog.dataflow import dataflow as D


class Skip(Exception):
    pass


class Bad(Exception):
    """The tree has no meaning at all (cannot be a result of a correct transformation)."""


COMPARE = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
UNARY = ('Uplus', 'Uminus', 'Ulnot', 'Unot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
REDUCE = ('Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
SHIFT = ('Sll', 'Srl', 'Sla', 'Sra')
ARITH = ('Power', 'Times', 'Divide', 'Mod', 'Plus', 'Minus')
BITWISE = ('And', 'Or', 'Xor', 'Xnor')
BINARY = ARITH + SHIFT + COMPARE + BITWISE + ('Land', 'Lor')


def mask(w):
    return (1 << w) - 1


def literal(text):
    """(value or None when it has x/z digits, width, signed) of an integer literal."""
    t = text.replace('_', '').replace(' ', '')
    if "'" not in t:
        v = int(t)
        return v, 32, True
    size, rest = t.split("'")
    w = int(size) if size else 32
    rest = rest.lower()
    signed = rest[0] == 's'
    if signed:
        rest = rest[1:]
    base = {'b': 2, 'o': 8, 'd': 10, 'h': 16}[rest[0]]
    digits = rest[1:]
    if any(c in 'xz?' for c in digits):
        return None, w, signed
    v = int(digits, base)
    if not size:
        w = max(32, v.bit_length())
    v &= mask(w)
    if signed and v >> (w - 1):
        v -= 1 << w
    return v, w, signed


class Same(object):
    """every signal has the value k (cut to its width)"""

    def __init__(self, terms, k):
        self.terms, self.k = terms, k

    def __contains__(self, n):
        return n in self.terms

    def __getitem__(self, n):
        return min(self.k, mask(self.terms[n][0]))


class Eval(object):
    """terms: {name: (width, lsb, descending) or (width, lsb, descending, (lo, hi))}.
    exact=True is the judged original, False the transformed tree (numbers carry no sign type)."""

    def __init__(self, terms, exact=True, signed_terms=()):
        self.terms = terms
        self.exact = exact
        self.signed_terms = signed_terms
        self.cache = {}
        self.keep = []

    # -- static width and sign -------------------------------------------------
    def shape(self, t):
        k = id(t)
        r = self.cache.get(k)
        if r is None:
            r = self._shape(t)
            self.cache[k] = r
            self.keep.append(t)
        return r

    def _shape(self, t):
        if isinstance(t, D.DFIntConst):
            v, w, s = literal(t.value)
            return w, s
        if isinstance(t, D.DFEvalValue):
            return (t.width if t.width is not None else 32), True
        if isinstance(t, (D.DFUndefined, D.DFHighImpedance)):
            return t.width, not self.exact
        if isinstance(t, D.DFTerminal):
            if t.name not in self.terms:
                raise Bad('unknown signal %s' % (t.name,))
            return self.terms[t.name][0], (t.name in self.signed_terms or not self.exact)
        if isinstance(t, D.DFBranch):
            shapes = [self.shape(x) for x in (t.truenode, t.falsenode) if x is not None]
            if not shapes:
                return 0, True          # everything is held, whatever its width
            return max(w for w, _ in shapes), all(s for _, s in shapes)
        if isinstance(t, D.DFOperator):
            op = t.operator
            sh = [self.shape(n) for n in t.nextnodes]
            if op in COMPARE or op in REDUCE or op in ('Ulnot', 'Land', 'Lor'):
                return 1, not self.exact
            if op in SHIFT or op == 'Power':
                return sh[0]
            return max(w for w, _ in sh), all(s for _, s in sh)
        if isinstance(t, D.DFConcat):
            return sum(self.shape(n)[0] for n in t.nextnodes), not self.exact
        if isinstance(t, D.DFPartselect):
            m, l = self.span(t)
            return abs(m - l) + 1, not self.exact
        if isinstance(t, D.DFPointer):
            if isinstance(t.var, D.DFTerminal) and len(self.terms[t.var.name]) > 3:
                return self.terms[t.var.name][0], not self.exact
            return 1, not self.exact
        if isinstance(t, D.DFSyscall):
            if t.syscall not in ('signed', 'unsigned') or len(t.nextnodes) != 1:
                raise Skip('system function')
            w = self.shape(t.nextnodes[0])[0]
            return w, t.syscall == 'signed'
        raise (Skip if self.exact else Bad)('cannot evaluate %r' % (type(t).__name__,))

    def span(self, t):
        """bounds of a selection, for any value of the signals they depend on (the width is fixed)"""
        for k in (0, 1, 3):
            env = Same(self.terms, k)
            try:
                m, l = self.self_value(t.msb, env), self.self_value(t.lsb, env)
            except Skip:
                continue
            if not (m[1] or m[2] or l[1] or l[2]):
                return m[0], l[0]
        raise Skip('unknown bound')

    # -- evaluation ------------------------------------------------------------
    def value(self, t, env):
        w, s = self.shape(t)
        return self.ev(t, env, w, s)

    def self_value(self, t, env):
        w, s = self.shape(t)
        return self.ev(t, env, w, s)

    def fit(self, v, w, s, stable=True):
        """check that an exact result is representable in its own width"""
        if self.exact:
            if s:
                if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
                    raise Skip('overflow')
            elif not 0 <= v <= mask(w):
                raise Skip('overflow')
        elif not -(1 << w) <= v <= mask(w):
            raise Skip('overflow')
        return (v, 0, 0, w)

    def ev(self, t, env, cw, cs):
        if isinstance(t, D.DFTerminal):
            if t.name not in env:
                raise Bad('no value for %s' % (t.name,))
            v = env[t.name]
            w = self.terms[t.name][0]
            if isinstance(v, tuple):
                if len(v) == 2:
                    return (v[0], v[1], 0, w)
                raise Skip('whole array')
            if self.exact and t.name in self.signed_terms and v >> (w - 1):
                v -= 1 << w
                if not cs:
                    raise Skip('negative in unsigned context')
            return (v, 0, 0, w)
        if isinstance(t, D.DFIntConst):
            v, w, s = literal(t.value)
            if v is None:
                return (0, mask(w), 0, w)
            if self.exact and v < 0 and not cs:
                raise Skip('negative in unsigned context')
            return (v, 0, 0, w)
        if isinstance(t, D.DFEvalValue):
            if not isinstance(t.value, int):
                raise Bad('value %r' % (t.value,))
            return (t.value, 0, 0, t.width if t.width is not None else 32)
        if isinstance(t, (D.DFUndefined, D.DFHighImpedance)):
            if t.width < 0:
                raise Bad('undefined value of %d bits' % t.width)
            return (0, mask(t.width), 0, t.width)
        if isinstance(t, D.DFBranch):
            w, s = self.shape(t)
            c = self.self_value(t.condnode, env)
            if c[1] or c[2]:
                return (0, mask(w), 0, w)
            n = t.truenode if c[0] else t.falsenode
            if n is None:
                return (0, 0, mask(w) if w else -1, w)
            r = self.ev(n, env, max(cw, w), cs)
            return (r[0], r[1], r[2], w)
        if isinstance(t, D.DFConcat):
            v = x = h = w = 0
            for n in t.nextnodes:
                r = self.self_value(n, env)
                if r[3] < 0:
                    raise Bad('negative width')
                k = mask(r[3])
                v = (v << r[3]) | (r[0] & k)
                x = (x << r[3]) | r[1]
                h = (h << r[3]) | r[2]
                w += r[3]
            return (v, x, h, w)
        if isinstance(t, D.DFPartselect):
            return self.part(t, env)
        if isinstance(t, D.DFPointer):
            return self.point(t, env)
        if isinstance(t, D.DFSyscall):
            if t.syscall not in ('signed', 'unsigned'):
                raise Skip('system function')
            r = self.self_value(t.nextnodes[0], env)
            v, w = r[0] & mask(r[3]), r[3]
            if t.syscall == 'signed' and v >> (w - 1) and not r[1]:
                v -= 1 << w
                if self.exact and not cs:
                    raise Skip('negative in unsigned context')
            return (v, r[1], r[2], w)
        if isinstance(t, D.DFOperator):
            r = self.oper(t, env, cw, cs)
            if self.exact and r[0] < 0 and not cs:
                raise Skip('negative in unsigned context')
            return r
        raise Bad('cannot evaluate %r' % (type(t).__name__,))

    def oper(self, t, env, cw, cs):
        op = t.operator
        w, s = self.shape(t)
        ns = t.nextnodes
        if self.exact and (op in COMPARE or op in SHIFT or op in ('Divide', 'Mod', 'Power')) and any(self.inverts(n) for n in ns):
            raise Skip('inverted signed number used as a number')
        if op in UNARY:
            if op in REDUCE or op == 'Ulnot':
                a = self.self_value(ns[0], env)
                if a[1] or a[2]:
                    return self.unknown(a, 1)
                aw = a[3]
                v = a[0] & mask(aw)
                if op == 'Ulnot':
                    r = int(v == 0)
                else:
                    ones = bin(v).count('1')
                    r = {'Uand': v == mask(aw), 'Uor': v != 0, 'Uxor': ones & 1 == 1}[
                        {'Unand': 'Uand', 'Unor': 'Uor', 'Uxnor': 'Uxor'}.get(op, op)]
                    r = int(r) ^ (op in ('Unand', 'Unor', 'Uxnor'))
                return (r, 0, 0, 1)
            a = self.ev(ns[0], env, max(cw, w), cs)
            if a[1] or a[2]:
                return self.unknown(a, w)
            if op == 'Uplus':
                return a
            if op == 'Uminus':
                return self.fit(-a[0], w, s)
            if s and self.exact:
                return self.fit(~a[0], w, s)
            if self.exact and cw > w:
                raise Skip('inversion extended')
            return ((~a[0]) & mask(w), 0, 0, w)
        if op in ('Land', 'Lor'):
            a, b = self.self_value(ns[0], env), self.self_value(ns[1], env)
            if a[1] or a[2] or b[1] or b[2]:
                return self.unknown(a if a[1] or a[2] else b, 1)
            return (int(bool(a[0]) and bool(b[0])) if op == 'Land' else int(bool(a[0]) or bool(b[0])), 0, 0, 1)
        if op in COMPARE:
            (wa, sa), (wb, sb) = self.shape(ns[0]), self.shape(ns[1])
            k, ks = max(wa, wb), sa and sb
            a, b = self.ev(ns[0], env, k, ks), self.ev(ns[1], env, k, ks)
            if a[1] or a[2] or b[1] or b[2]:
                return self.unknown(a if a[1] or a[2] else b, 1)
            a, b = a[0], b[0]
            r = {'LessThan': a < b, 'GreaterThan': a > b, 'LessEq': a <= b, 'GreaterEq': a >= b, 'Eq': a == b,
                 'NotEq': a != b, 'Eql': a == b, 'NotEql': a != b}[op]
            return (int(r), 0, 0, 1)
        if op in SHIFT or op == 'Power':
            a, b = self.ev(ns[0], env, max(cw, w), cs), self.self_value(ns[1], env)
            if a[1] or a[2] or b[1] or b[2]:
                return self.unknown(a if a[1] or a[2] else b, w)
            a, b = a[0], b[0]
            if op == 'Power':
                return self.power(a, b, w, s)
            if b < 0:
                if self.exact:
                    raise Skip('negative shift amount')
                return (0, mask(w), 0, w)
            if op in ('Sll', 'Sla'):
                if a and b > 4096:
                    raise Skip('overflow')
                return self.fit(a << b if a else 0, w, s)
            if op == 'Srl' and a < 0:
                raise Skip('logical shift of negative')
            return (a >> min(b, 1 << 16), 0, 0, w)
        a, b = self.ev(ns[0], env, max(cw, w), cs), self.ev(ns[1], env, max(cw, w), cs)
        if a[1] or a[2] or b[1] or b[2]:
            return self.unknown(a if a[1] or a[2] else b, w)
        a, b = a[0], b[0]
        if op == 'Plus':
            return self.fit(a + b, w, s)
        if op == 'Minus':
            return self.fit(a - b, w, s)
        if op == 'Times':
            return self.fit(a * b, w, s)
        if op in ('Divide', 'Mod'):
            if b == 0:
                return (0, mask(w), 0, w)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return self.fit(q if op == 'Divide' else a - b * q, w, s)
        if op == 'And':
            return self.fit(a & b, w, s)
        if op == 'Or':
            return self.fit(a | b, w, s)
        if op == 'Xor':
            return self.fit(a ^ b, w, s)
        if op == 'Xnor':
            if self.exact and s:
                return self.fit(~(a ^ b), w, s)
            if self.exact and cw > w:
                raise Skip('inversion extended')
            return (~(a ^ b) & mask(w), 0, 0, w)
        raise Bad('operator %s' % op)

    def inverts(self, t):
        if isinstance(t, D.DFOperator):
            return self.shape(t)[1] and (t.operator in ('Unot', 'Xnor') or any(self.inverts(n) for n in t.nextnodes))
        if isinstance(t, D.DFBranch):
            return any(self.inverts(n) for n in (t.truenode, t.falsenode) if n is not None)
        return False

    def unknown(self, a, w):
        if a[2]:
            raise Skip('operator on a held value')
        return (0, mask(w), 0, w)

    def power(self, a, b, w, s):
        if b < 0:
            if a == 0:
                return (0, mask(w), 0, w)
            if a == 1:
                return (1, 0, 0, w)
            if a == -1:
                return (1 if b % 2 == 0 else -1, 0, 0, w)
            return (0, 0, 0, w)
        if abs(a) > 1 and b > 200:
            raise Skip('overflow')
        return self.fit(a ** b if abs(a) > 1 else (1 if b == 0 else (a if b % 2 or a >= 0 else 1)), w, s)

    def base(self, t, env):
        """value and index mapping of a selected object"""
        if isinstance(t, D.DFTerminal):
            r = self.ev(t, env, 0, True)
            w, lsb, desc = self.terms[t.name][:3]
            return r, w, lsb, desc
        r = self.self_value(t, env)
        return r, r[3], 0, False

    def bits(self, r, w, positions):
        v = x = h = 0
        for p in positions:          # from the most significant
            v, x, h = v << 1, x << 1, h << 1
            if 0 <= p < w:
                v |= (r[0] >> p) & 1
                x |= (r[1] >> p) & 1
                h |= (r[2] >> p) & 1
            else:
                x |= 1
        return (v, x, h, len(positions))

    def part(self, t, env):
        m, l = self.self_value(t.msb, env), self.self_value(t.lsb, env)
        if m[1] or m[2] or l[1] or l[2]:
            w = self.shape(t)[0]
            return (0, mask(w), 0, w)
        m, l = m[0], l[0]
        if isinstance(t.var, D.DFPointer) and isinstance(t.var.var, D.DFTerminal) and len(self.terms[t.var.var.name]) > 3:
            r = self.point(t.var, env)
            w, lsb, desc = self.terms[t.var.var.name][:3]
        else:
            r, w, lsb, desc = self.base(t.var, env)
        n = abs(m - l) + 1
        if (m < l) != desc and m != l:
            if not self.exact and not isinstance(t.var, D.DFTerminal):
                raise Bad('reversed range')
            raise Skip('reversed range')
        if desc:
            pl = lsb - l
        else:
            pl = l - lsb
        if not self.exact and (pl < 0 or pl + n > w):
            if pl + n > 1 << 16:
                raise Bad('huge select')
        return self.bits(r, w, [pl + i for i in range(n - 1, -1, -1)])

    def point(self, t, env):
        p = self.self_value(t.ptr, env)
        if isinstance(t.var, D.DFTerminal) and len(self.terms[t.var.name]) > 3:
            w, lsb, desc, (lo, hi) = self.terms[t.var.name]
            if p[1] or p[2]:
                return (0, mask(w), 0, w)
            if not lo <= p[0] <= hi:
                return (0, mask(w), 0, w)
            return (env[t.var.name][p[0] - lo], 0, 0, w)
        if p[1] or p[2]:
            return (0, 1, 0, 1)
        r, w, lsb, desc = self.base(t.var, env)
        pos = (lsb - p[0]) if desc else (p[0] - lsb)
        return self.bits(r, w, [pos])


WILD = re.compile(r"'[sS]?[bBoOhH].*[xXzZ?]")


def pattern(text):
    """(care, value) of a case item with wildcard digits, which the analyser keeps as a comparison"""
    size, rest = text.replace('_', '').lower().split("'")
    rest = rest.lstrip('s')
    k = {'b': 1, 'o': 3, 'h': 4}[rest[0]]
    bits = ''.join(c * k if c in 'xz?' else bin(int(c, 16))[2:].zfill(k) for c in rest[1:])
    n = int(size) if size else max(32, len(bits))
    bits = bits.rjust(n, bits[0] if bits[0] in 'xz?' else '0')[-n:]
    care = int(''.join('0' if c in 'xz?' else '1' for c in bits), 2) | ~mask(n)
    return care, int(''.join('0' if c in 'xz?' else c for c in bits), 2)


class Full(Eval):
    """Values as the standard defines them: operands take the width and the sign of their context and
    results wrap.  A selection of an expression (only the analyser makes them) takes the bits of its
    value, extended as an assignment would extend it."""

    def wrap(self, v, k, s):
        v &= mask(k)
        return v - (1 << k) if s and k and v >> (k - 1) else v

    def ev(self, t, env, cw, cs):
        if isinstance(t, D.DFTerminal):
            v = env[t.name] if t.name in env else None
            if v is None:
                raise Bad('no value for %s' % (t.name,))
            w = self.terms[t.name][0]
            if isinstance(v, tuple):
                if len(v) == 2 and not len(self.terms[t.name]) > 3:
                    return (v[0], v[1], 0, w)
                raise Skip('whole array')
            return (self.wrap(v, w, cs and t.name in self.signed_terms), 0, 0, w)
        if isinstance(t, (D.DFIntConst, D.DFEvalValue)):
            if isinstance(t, D.DFIntConst):
                v, w, s = literal(t.value)
                if v is None:
                    return (0, mask(w), 0, w)
            else:
                if not isinstance(t.value, int):
                    raise Bad('value %r' % (t.value,))
                v, w, s = t.value, t.width if t.width is not None else 32, True
            return (self.wrap(v, w, s and cs), 0, 0, w)
        if isinstance(t, D.DFSyscall):
            if t.syscall not in ('signed', 'unsigned'):
                raise Skip('system function')
            r = self.self_value(t.nextnodes[0], env)
            return (self.wrap(r[0], r[3], cs and t.syscall == 'signed'), r[1], r[2], r[3])
        return Eval.ev(self, t, env, cw, cs) if not isinstance(t, D.DFOperator) else self.oper(t, env, cw, cs)

    def oper(self, t, env, cw, cs):
        op = t.operator
        w = self.shape(t)[0]
        k = max(w, cw)
        ns = t.nextnodes
        if op in REDUCE or op == 'Ulnot' or op in ('Land', 'Lor'):
            return Eval.oper(self, t, env, cw, cs)
        if op == 'Eq' and isinstance(ns[1], D.DFIntConst) and WILD.search(ns[1].value):
            a = self.self_value(ns[0], env)
            if a[1] or a[2]:
                return self.unknown(a, 1)
            care, val = pattern(ns[1].value)
            return (int(a[0] & care == val), 0, 0, 1)
        if op in COMPARE:
            return Eval.oper(self, t, env, cw, cs)
        if op in UNARY:
            a = self.ev(ns[0], env, k, cs)
            if a[1] or a[2]:
                return self.unknown(a, k)
            v = {'Uplus': a[0], 'Uminus': -a[0], 'Unot': ~a[0]}[op]
            return (self.wrap(v, k, cs), 0, 0, k)
        if op in SHIFT or op == 'Power':
            a, b = self.ev(ns[0], env, k, cs), self.self_value(ns[1], env)
            if a[1] or a[2] or b[1] or b[2]:
                return self.unknown(a if a[1] or a[2] else b, k)
            a, b = a[0], b[0]
            if op == 'Power':
                if b < 0:
                    raise Skip('negative exponent')
                return (self.wrap(pow(a, b, 1 << k), k, cs), 0, 0, k)
            b &= mask(self.shape(ns[1])[0])
            if op in ('Sll', 'Sla'):
                return (self.wrap(a << min(b, k), k, cs), 0, 0, k)
            if op == 'Srl':
                a &= mask(k)
            return (self.wrap(a >> min(b, k), k, cs), 0, 0, k)
        a, b = self.ev(ns[0], env, k, cs), self.ev(ns[1], env, k, cs)
        if a[1] or a[2] or b[1] or b[2]:
            return self.unknown(a if a[1] or a[2] else b, k)
        a, b = a[0], b[0]
        if op in ('Divide', 'Mod'):
            if b == 0:
                return (0, mask(k), 0, k)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            v = q if op == 'Divide' else a - b * q
        else:
            v = {'Plus': a + b, 'Minus': a - b, 'Times': a * b, 'And': a & b, 'Or': a | b, 'Xor': a ^ b, 'Xnor': ~(a ^ b)}[op]
        return (self.wrap(v, k, cs), 0, 0, k)

    def inverts(self, t):
        return False

    def self_value(self, t, env):
        w, s = self.shape(t)
        r = self.ev(t, env, w, s)
        return (self.wrap(r[0], w, s), r[1] & mask(w), r[2] & mask(w), w)

    def base(self, t, env):
        if isinstance(t, D.DFTerminal):
            return Eval.base(self, t, env)
        w, s = self.shape(t)
        k = w
        if self.reach:
            k = max(w, self.reach[-1])
        r = self.ev(t, env, k, s)
        return r, k, 0, False

    reach = ()

    def part(self, t, env):
        if isinstance(t.var, (D.DFTerminal, D.DFPointer, D.DFPartselect)):
            return Eval.part(self, t, env)
        m, l = self.self_value(t.msb, env), self.self_value(t.lsb, env)
        if m[0] < l[0]:
            raise Bad('reversed selection of an expression')
        self.reach = tuple(self.reach) + (max(m[0], l[0]) + 1,)
        try:
            return Eval.part(self, t, env)
        finally:
            self.reach = self.reach[:-1]


def same(orig, new):
    """The transformed value agrees with the original on every bit the original defines."""
    v0, x0, h0, w = orig
    v1, x1, h1, w1 = new
    known = mask(w) & ~x0
    if (h0 ^ h1) & known:
        return False
    k = known & ~h0
    if x1 & k:
        return False
    if not x1 and not h1 and v1 > 0 and (v1 & mask(w1)) > mask(w):
        return False
    return (v0 ^ v1) & k == 0
