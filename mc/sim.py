"""Small Verilog designs as data: their text, and a reference interpreter of their behaviour.

Expressions, assignments, statements and items are tuples (see expr_text, stmt_text).  The
interpreter runs procedural code statement by statement; expressions are evaluated by mc.dfv in
exact mode (dfv.Skip where the value depends on truncation or sign rules), so a design is judged
only where its value is beyond doubt.  The interpreter itself is compared with iverilog/vvp by
the checks that use it.
"""
import os
import shutil
import subprocess
import tempfile

from pyverilog.dataflow import dataflow as D

from mc import dfv
from mc.dfv import mask, Skip

MARK = {'Uplus': '+', 'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&', 'Uor': '|', 'Unor': '~|', 'Uxor': '^', 'Uxnor': '~^',
        'Power': '**', 'Times': '*', 'Divide': '/', 'Mod': '%', 'Plus': '+', 'Minus': '-', 'Sll': '<<', 'Srl': '>>', 'Sla': '<<<', 'Sra': '>>>',
        'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=', 'Eq': '==', 'NotEq': '!=', 'Eql': '===', 'NotEql': '!==',
        'And': '&', 'Xor': '^', 'Xnor': '~^', 'Or': '|', 'Land': '&&', 'Lor': '||'}
BYMARK = {'+': 'Plus', '-': 'Minus', '*': 'Times', '/': 'Divide', '%': 'Mod', '<<': 'Sll', '>>': 'Srl', '<': 'LessThan', '>': 'GreaterThan',
          '<=': 'LessEq', '>=': 'GreaterEq', '==': 'Eq', '!=': 'NotEq', '&': 'And', '^': 'Xor', '~^': 'Xnor', '|': 'Or', '&&': 'Land', '||': 'Lor',
          '===': 'Eql', '!==': 'NotEql', '**': 'Power', '<<<': 'Sla', '>>>': 'Sra'}
UMARK = {'-': 'Uminus', '!': 'Ulnot', '~': 'Unot', '&': 'Uand', '~&': 'Unand', '|': 'Uor', '~|': 'Unor', '^': 'Uxor', '~^': 'Uxnor', '+': 'Uplus'}


# -- constructors -------------------------------------------------------------------------
def V(n):
    return ('v', n)


def K(text):
    return ('c', text)


def U(mark, e):
    return ('u', UMARK[mark], e)


def B(l, mark, r):
    return ('b', BYMARK[mark], l, r)


def T(c, t, f):
    return ('?', c, t, f)


def IX(n, e):
    return ('idx', n, e if isinstance(e, tuple) else K(str(e)))


def PS(n, m, l):
    return ('part', n, m, l)


def CAT(*es):
    return ('cat',) + es


def REP(n, e):
    return ('rep', n, e)


def CALL(f, *args):
    return ('call', f) + args


class Sig(object):
    def __init__(self, name, kind, msb=None, lsb=None, dims=None):
        self.name, self.kind, self.msb, self.lsb, self.dims = name, kind, msb, lsb, dims
        if kind == 'integer':
            self.width, self.low, self.desc = 32, 0, False
        elif msb is None:
            self.width, self.low, self.desc = 1, 0, False
        else:
            self.width, self.low, self.desc = abs(msb - lsb) + 1, lsb, msb < lsb

    def shape(self):
        r = (self.width, self.low, self.desc)
        return r + ((min(self.dims), max(self.dims)),) if self.dims else r

    def text(self, end=';'):
        k = {'output reg': 'output reg'}.get(self.kind, self.kind)
        r = '' if self.msb is None or self.kind == 'integer' else '[%d:%d] ' % (self.msb, self.lsb)
        d = ' [%d:%d]' % self.dims if self.dims else ''
        return '%s %s%s%s%s' % (k, r, self.name, d, end)


class Func(object):
    """function automatic-free: name, (msb, lsb) of the result, arguments, locals, body"""

    def __init__(self, name, rng, args, body, local=()):
        self.name, self.args, self.body, self.local = name, args, body, local
        self.ret = Sig(name, 'reg', *(rng or (None, None)))

    def text(self):
        r = '' if self.ret.msb is None else '[%d:%d] ' % (self.ret.msb, self.ret.lsb)
        return 'function %s%s; %s %s begin %s end endfunction' % (
            r, self.name, ' '.join(a.text() for a in self.args), ' '.join(a.text() for a in self.local), ' '.join(stmt_text(s) for s in self.body))


class Design(object):
    def __init__(self, sigs, items, funcs=(), name='m'):
        self.sigs, self.items, self.funcs, self.name = list(sigs), list(items), list(funcs), name
        self.by = {s.name: s for s in self.sigs}
        self.fby = {f.name: f for f in self.funcs}

    def text(self):
        ports = [s for s in self.sigs if s.kind.startswith(('input', 'output'))]
        out = ['module %s(%s);' % (self.name, ', '.join(s.text('') for s in ports))]
        out += [s.text() for s in self.sigs if s not in ports]
        out += [f.text() for f in self.funcs]
        out += [item_text(i) for i in self.items]
        return '\n'.join(out + ['endmodule'])


def expr_text(e):
    k = e[0]
    if k == 'v' or k == 'c':
        return e[1]
    if k == 'u':
        return '(%s %s)' % (MARK[e[1]], expr_text(e[2]))
    if k == 'b':
        return '(%s %s %s)' % (expr_text(e[2]), MARK[e[1]], expr_text(e[3]))
    if k == '?':
        return '(%s ? %s : %s)' % tuple(expr_text(x) for x in e[1:])
    if k == 'idx':
        return '%s[%s]' % (e[1], expr_text(e[2]))
    if k == 'part':
        return '%s[%d:%d]' % e[1:]
    if k == 'mpart':        # memory word part: name, index, msb, lsb
        return '%s[%s][%d:%d]' % (e[1], expr_text(e[2]), e[3], e[4])
    if k == 'midx':
        return '%s[%s][%d]' % (e[1], expr_text(e[2]), e[3])
    if k == 'ip':           # name, base, width
        return '%s[%s +: %d]' % (e[1], expr_text(e[2]), e[3])
    if k == 'im':
        return '%s[%s -: %d]' % (e[1], expr_text(e[2]), e[3])
    if k == 'cat':
        return '{%s}' % ', '.join(expr_text(x) for x in e[1:])
    if k == 'rep':
        return '{%d{%s}}' % (e[1], expr_text(e[2]))
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join(expr_text(x) for x in e[2:]))
    if k == 'sys':
        return '$%s(%s)' % (e[1], ', '.join(expr_text(x) for x in e[2:]))
    raise ValueError(e)


def lhs_text(l):
    if l[0] == 'cat':
        return '{%s}' % ', '.join(lhs_text(x) for x in l[1:])
    return expr_text(l)


def block_text(stmts):
    return 'begin %s end' % ' '.join(stmt_text(s) for s in stmts)


def stmt_text(s):
    k = s[0]
    if k in ('=', '<='):
        return '%s %s %s;' % (lhs_text(s[1]), k, expr_text(s[2]))
    if k == 'if':
        r = 'if (%s) %s' % (expr_text(s[1]), block_text(s[2]))
        return r + (' else ' + (stmt_text(s[3][0]) if len(s[3]) == 1 and s[3][0][0] == 'if' else block_text(s[3])) if s[3] is not None else '')
    if k == 'if1':          # unbraced single statements
        return 'if (%s) %s%s' % (expr_text(s[1]), stmt_text(s[2]), '' if s[3] is None else ' else ' + stmt_text(s[3]))
    if k in ('case', 'casex', 'casez'):
        arms = []
        for conds, body in s[2]:
            arms.append('%s: %s' % ('default' if conds is None else ', '.join(expr_text(c) for c in conds), block_text(body)))
        return '%s (%s) %s endcase' % (k, expr_text(s[1]), ' '.join(arms))
    if k == 'for':          # var, init, cond, step, body
        return 'for (%s = %s; %s; %s = %s) %s' % (s[1], expr_text(s[2]), expr_text(s[3]), s[1], expr_text(s[4]), block_text(s[5]))
    if k == 'while':
        return 'while (%s) %s' % (expr_text(s[1]), block_text(s[2]))
    if k == 'block':        # name or None, local signals, body
        return 'begin %s %s %s end' % (': ' + s[1] if s[1] else '', ' '.join(x.text() for x in s[2]), ' '.join(stmt_text(x) for x in s[3]))
    if k == 'nop':
        return ';'
    raise ValueError(s)


def item_text(i):
    k = i[0]
    if k == 'assign':
        return 'assign %s = %s;' % (lhs_text(i[1]), expr_text(i[2]))
    if k == 'always':       # sensitivity text, statements, keyword if not always
        word = i[3] if len(i) > 3 else 'always'
        return '%s %s%s' % (word, '@%s ' % i[1] if word in ('always', 'always_ff') else '', block_text(i[2]))
    if k == 'init':         # wire declaration with assignment: text of the declaration, name, expression
        return '%s = %s;' % (i[1], expr_text(i[3]))
    if k == 'raw':
        return i[1]
    raise ValueError(i)


# -- interpreter ---------------------------------------------------------------------------
class Env(object):
    """name -> value for mc.dfv, from a state {name: (v, x, h)} (memories: list of those)"""

    def __init__(self, state, extra):
        self.state, self.extra = state, extra

    def __contains__(self, n):
        return n in self.extra or n in self.state

    def __getitem__(self, n):
        if n in self.extra:
            return self.extra[n]
        v = self.state[n]
        if isinstance(v, list):
            if any(x[1] or x[2] for x in v):
                raise Skip('memory with unknown words')
            return tuple(x[0] for x in v)
        return (v[0], v[1] | v[2]) if v[1] | v[2] else v[0]


class Machine(object):
    def __init__(self, design):
        self.d = design
        self.terms = {s.name: s.shape() for s in design.sigs}
        for f in design.funcs:
            for s in (f.ret,) + tuple(f.args) + tuple(f.local):
                self.terms[(f.name, s.name)] = s.shape()
        self.trees = {}
        self.ev = dfv.Full(self.terms, True, {s.name for s in design.sigs if s.kind == 'integer'} |
                           {(f.name, s.name) for f in design.funcs for s in f.local if s.kind == 'integer'})

    def local(self, sigs):
        for s in sigs:
            self.terms[s.name] = s.shape()
            if s.kind == 'integer':
                self.ev.signed_terms.add(s.name)

    # expression -> tree of terminals; function calls become extra terminals
    def tree(self, e, scope):
        key = (id(e), scope)
        r = self.trees.get(key)
        if r is None:
            calls = []
            r = (self.build(e, scope, calls), calls, e)
            self.trees[key] = r
        return r[0], r[1]

    def name(self, n, scope):
        return (scope, n) if (scope, n) in self.terms else n

    def build(self, e, scope, calls):
        k = e[0]
        b = lambda x: self.build(x, scope, calls)
        if k == 'v':
            return D.DFTerminal(self.name(e[1], scope))
        if k == 'c':
            return D.DFIntConst(e[1])
        if k == 'u':
            return D.DFOperator((b(e[2]),), e[1])
        if k == 'b':
            return D.DFOperator((b(e[2]), b(e[3])), e[1])
        if k == '?':
            return D.DFBranch(b(e[1]), b(e[2]), b(e[3]))
        if k == 'idx':
            return D.DFPointer(D.DFTerminal(self.name(e[1], scope)), b(e[2]))
        if k == 'part':
            return D.DFPartselect(D.DFTerminal(self.name(e[1], scope)), D.DFIntConst(str(e[2])), D.DFIntConst(str(e[3])))
        if k == 'mpart':
            return D.DFPartselect(D.DFPointer(D.DFTerminal(self.name(e[1], scope)), b(e[2])), D.DFIntConst(str(e[3])), D.DFIntConst(str(e[4])))
        if k == 'midx':
            return D.DFPartselect(D.DFPointer(D.DFTerminal(self.name(e[1], scope)), b(e[2])), D.DFIntConst(str(e[3])), D.DFIntConst(str(e[3])))
        if k in ('ip', 'im'):
            t = D.DFTerminal(self.name(e[1], scope))
            if k == 'ip':
                return D.DFPartselect(t, D.DFOperator((b(e[2]), D.DFIntConst(str(e[3] - 1))), 'Plus'), b(e[2]))
            return D.DFPartselect(t, b(e[2]), D.DFOperator((b(e[2]), D.DFIntConst(str(e[3] - 1))), 'Minus'))
        if k == 'cat':
            return D.DFConcat(tuple(b(x) for x in e[1:]))
        if k == 'rep':
            return D.DFConcat(tuple(b(e[2]) for _ in range(e[1])))
        if k == 'sys':
            return D.DFSyscall(e[1], tuple(b(x) for x in e[2:]))
        if k == 'call':
            n = ('call', id(e))
            f = self.d.fby[e[1]]
            self.terms[n] = f.ret.shape()
            calls.append((n, f, e))
            return D.DFTerminal(n)
        raise ValueError(e)

    def eval(self, e, st, scope=None, cw=0):
        """(v, x, w) with v masked to max(own width, cw)"""
        t, calls = self.tree(e, scope)
        extra = {}
        for n, f, c in calls:
            extra[n] = self.call(f, c[2:], st, scope)
        w, s = self.ev.shape(t)
        k = max(w, cw)
        r = self.ev.ev(t, Env(st, extra), k, s)
        x = r[1] | r[2]
        return (r[0] & mask(k), x, k)

    def call(self, f, args, st, scope):
        loc = dict(st)
        for s in (f.ret,) + tuple(f.local):
            loc[(f.name, s.name)] = (0, mask(s.width), 0)
        for a, e in zip(f.args, args):
            v, x, w = self.eval(e, st, scope, a.width)
            loc[(f.name, a.name)] = (v & mask(a.width), x & mask(a.width), 0)
        self.run(f.body, loc, {}, f.name)
        r = loc[(f.name, f.name)]
        return (r[0], r[1]) if r[1] else r[0]

    # -- statements
    def width(self, l, scope):
        if l[0] == 'v':
            return self.terms[self.name(l[1], scope)][0]
        if l[0] == 'idx':
            sh = self.terms[self.name(l[1], scope)]
            return sh[0] if len(sh) > 3 else 1
        if l[0] == 'part':
            return abs(l[2] - l[3]) + 1
        if l[0] == 'mpart':
            return abs(l[3] - l[4]) + 1
        if l[0] == 'midx':
            return 1
        if l[0] in ('ip', 'im'):
            return l[3]
        if l[0] == 'cat':
            return sum(self.width(x, scope) for x in l[1:])
        raise ValueError(l)

    def put(self, old, v, x, pos, n, w):
        """write n bits at bit position pos of an object of width w"""
        if pos < 0 or pos + n > w:
            raise Skip('assignment out of range')
        k = mask(n) << pos
        return ((old[0] & ~k) | ((v << pos) & k), (old[1] & ~k) | ((x << pos) & k), old[2] & ~k)

    def position(self, sh, i):
        return sh[1] - i if sh[2] else i - sh[1]

    def writes(self, l, v, x, st, scope, out):
        """list the elementary writes of one assignment: (name, word or None, pos, n, v, x)"""
        k = l[0]
        if k == 'cat':
            for y in reversed(l[1:]):
                n = self.width(y, scope)
                self.writes(y, v & mask(n), x & mask(n), st, scope, out)
                v, x = v >> n, x >> n
            return
        n = self.name(l[1], scope)
        sh = self.terms[n]
        w = self.width(l, scope)
        v, x = v & mask(w), x & mask(w)
        word = None
        pos = 0
        if k in ('idx', 'mpart', 'midx', 'ip', 'im'):
            i = self.eval(l[2], st, scope)
            if i[1]:
                raise Skip('unknown index')
            i = i[0]
            if k in ('mpart', 'midx') or (k == 'idx' and len(sh) > 3):
                lo, hi = sh[3]
                if not lo <= i <= hi:
                    raise Skip('index out of range')
                word = i - lo
                if k == 'mpart':
                    pos = self.position(sh, l[4])
                elif k == 'midx':
                    pos = self.position(sh, l[3])
            elif k == 'idx':
                pos = self.position(sh, i)
            elif k == 'ip':
                pos = self.position(sh, i + w - 1 if sh[2] else i)
            else:
                pos = self.position(sh, i if sh[2] else i - w + 1)
        elif k == 'part':
            pos = self.position(sh, l[3])
        out.append((n, word, pos, w, v, x, sh[0]))

    def apply(self, wr, st):
        for n, word, pos, w, v, x, full in wr:
            if word is None:
                st[n] = self.put(st[n], v, x, pos, w, full)
            else:
                words = list(st[n])
                words[word] = self.put(words[word], v, x, pos, w, full)
                st[n] = words

    def truth(self, e, st, scope):
        v, x, w = self.eval(e, st, scope)
        if x:
            raise Skip('unknown condition')
        return v != 0

    def run(self, stmts, st, nb, scope=None):
        for s in stmts:
            k = s[0]
            if k in ('=', '<='):
                w = self.width(s[1], scope)
                v, x, _ = self.eval(s[2], st, scope, w)
                out = []
                self.writes(s[1], v, x, st, scope, out)
                if k == '=':
                    self.apply(out, st)
                else:
                    nb.setdefault('w', []).extend(out)
            elif k in ('if', 'if1'):
                body = s[2] if self.truth(s[1], st, scope) else s[3]
                if body is not None:
                    self.run(body if k == 'if' else [body], st, nb, scope)
            elif k in ('case', 'casex', 'casez'):
                self.case(s, st, nb, scope)
            elif k == 'for':
                self.run([('=', V(s[1]), s[2])], st, nb, scope)
                while self.truth(s[3], st, scope):
                    self.run(s[5], st, nb, scope)
                    self.run([('=', V(s[1]), s[4])], st, nb, scope)
            elif k == 'while':
                while self.truth(s[1], st, scope):
                    self.run(s[2], st, nb, scope)
            elif k == 'block':
                self.local(s[2])
                for x in s[2]:
                    st.setdefault(x.name, (0, mask(x.width), 0))
                self.run(s[3], st, nb, scope)

    def case(self, s, st, nb, scope):
        v, x, w = self.eval(s[1], st, scope)
        if x:
            raise Skip('unknown case expression')
        default = None
        for conds, body in s[2]:
            if conds is None:
                default = body
                continue
            for c in conds:
                if c[0] == 'c' and any(ch in c[1] for ch in 'xz?'):
                    size, digits = c[1].split("'b")
                    care = val = 0
                    for ch in digits:
                        care, val = care << 1, val << 1
                        if ch in '01':
                            care, val = care | 1, val | int(ch)
                        elif ch == 'x' and s[0] == 'casez':
                            raise Skip('x digit in casez')
                    hit = v & care == val
                else:
                    cv, cx, cw = self.eval(c, st, scope)
                    if cx:
                        raise Skip('unknown case item')
                    hit = cv == v
                if hit:
                    return self.run(body, st, nb, scope)
        if default is not None:
            self.run(default, st, nb, scope)

    # -- whole designs
    def settle(self, given):
        """values of all signals of a combinational design (clocked items excluded) for the given signals.
        Bits never assigned are held: (v, x, h)."""
        st = {}
        for s in self.d.sigs:
            if s.dims:
                n = abs(s.dims[0] - s.dims[1]) + 1
                st[s.name] = [(v, 0, 0) for v in given[s.name]] if s.name in given else [(0, 0, mask(s.width))] * n
            elif s.name in given:
                st[s.name] = (given[s.name], 0, 0)
            else:
                st[s.name] = (0, 0, mask(s.width))
        todo = [i for i in self.d.items if i[0] in ('assign', 'init') or (i[0] == 'always' and 'edge' not in i[1])]
        done = None
        while todo and done != 0:
            done = 0
            rest = []
            for i in todo:
                if self.ready(i, todo):
                    done += 1
                    if i[0] == 'always':
                        nb = {}
                        self.run(i[2], st, nb)
                        self.apply(nb.get('w', ()), st)
                    else:
                        l, e = (i[1], i[2]) if i[0] == 'assign' else (V(i[2]), i[3])
                        self.run([('=', l, e)], st, {})
                else:
                    rest.append(i)
            todo = rest
        if todo:
            raise Skip('combinational loop')
        return st

    def ready(self, i, todo):
        reads, w = item_uses(i, self.d)
        for j in todo:
            if j is not i and reads & item_uses(j, self.d)[1]:
                return False
        return True

    def step(self, given):
        """next value of every clocked signal: {name: (v, x, h)} relative to the present state"""
        st = self.settle(given)
        nxt = {}
        for i in self.d.items:
            if i[0] == 'always' and 'edge' in i[1]:
                loc = dict(st)
                nb = {}
                self.run(i[2], loc, nb)
                for n in item_uses(i, self.d)[1]:
                    if n not in nxt or loc[n] != st[n]:
                        nxt[n] = loc[n]
                self.apply(nb.get('w', ()), nxt)
        return nxt


_uses = {}


def item_uses(i, d):
    r = _uses.get(id(i))
    if r is None or r[2] is not i:
        reads, writes = set(), set()
        if i[0] == 'assign':
            lhs_uses(i[1], reads, writes)
            expr_uses(i[2], reads)
        elif i[0] == 'init':
            writes.add(i[2])
            expr_uses(i[3], reads)
        elif i[0] == 'always':
            stmt_uses(i[2], reads, writes)
            reads -= writes
        r = _uses[id(i)] = (reads, writes, i)
    return r[0], r[1]


def outer_reads(f):
    """the names a function reads that are not its own"""
    reads, writes = set(), set()
    stmt_uses(f.body, reads, writes)
    return (reads | writes) - {s.name for s in (f.ret,) + tuple(f.args) + tuple(f.local)}


def lhs_uses(l, reads, writes):
    if l[0] == 'cat':
        for x in l[1:]:
            lhs_uses(x, reads, writes)
        return
    writes.add(l[1])
    for x in l[2:]:
        if isinstance(x, tuple):
            expr_uses(x, reads)


def expr_uses(e, reads):
    if e[0] in ('v', 'idx', 'part', 'mpart', 'midx', 'ip', 'im'):
        reads.add(e[1])
    for x in e[1:]:
        if isinstance(x, tuple):
            expr_uses(x, reads)


def stmt_uses(stmts, reads, writes):
    for s in stmts:
        k = s[0]
        if k in ('=', '<='):
            lhs_uses(s[1], reads, writes)
            expr_uses(s[2], reads)
        elif k in ('if', 'if1'):
            expr_uses(s[1], reads)
            for b in s[2:]:
                if b is not None:
                    stmt_uses(b if k == 'if' else [b], reads, writes)
        elif k in ('case', 'casex', 'casez'):
            expr_uses(s[1], reads)
            for c, b in s[2]:
                for x in c or ():
                    expr_uses(x, reads)
                stmt_uses(b, reads, writes)
        elif k == 'for':
            writes.add(s[1])
            for x in s[2:5]:
                expr_uses(x, reads)
            stmt_uses(s[5], reads, writes)
        elif k == 'while':
            expr_uses(s[1], reads)
            stmt_uses(s[2], reads, writes)
        elif k == 'block':
            stmt_uses(s[3], reads, writes)


def target(l):
    """the part a target names (None: all of it); x[1:1] is x[1]"""
    if l[0] == 'v':
        return None
    if l[0] == 'part' and l[2] == l[3]:
        return IX(l[1], l[2])
    return l


def paths(stmts):
    """the sequences of reads and writes along the paths of a block (loop bodies twice)"""
    r = [()]
    for s in stmts:
        k = s[0]
        if k in ('=', '<='):
            reads = set()
            expr_uses(s[2], reads)
            ws = []
            for l in s[1][1:] if s[1][0] == 'cat' else (s[1],):
                ws.append(('w', l[1], target(l)))
                for x in l[2:]:
                    if isinstance(x, tuple):
                        expr_uses(x, reads)
            alts = [tuple(('r', n) for n in sorted(reads)) + tuple(ws)]
        elif k in ('if', 'if1'):
            reads = set()
            expr_uses(s[1], reads)
            pre = tuple(('r', n) for n in sorted(reads))
            alts = []
            for b in s[2:]:
                alts += [pre + p for p in (paths(b if k == 'if' else [b]) if b is not None else [()])]
        elif k in ('case', 'casex', 'casez'):
            reads = set()
            expr_uses(s[1], reads)
            for c, b in s[2]:
                for x in c or ():
                    expr_uses(x, reads)
            pre = tuple(('r', n) for n in sorted(reads))
            alts = [pre] if all(c is not None for c, b in s[2]) else []
            for c, b in s[2]:
                alts += [pre + p for p in paths(b)]
        elif k == 'for':
            reads = set()
            for x in s[2:5]:
                expr_uses(x, reads)
            body = [tuple(('r', n) for n in sorted(reads)) + (('w', s[1], None),) + p for p in paths(s[5])]
            alts = [p + q for p in body for q in body]
        elif k == 'while':
            body = paths(s[2])
            alts = [p + q for p in body for q in body]
        elif k == 'block':
            alts = paths(s[3])
        else:
            alts = [()]
        r = list(dict.fromkeys(p + q for p in r for q in alts))
    return r


def span_of(l):
    if l is None:
        return None
    if l[0] == 'part':
        return tuple(sorted(l[2:4]))
    if l[0] == 'idx' and l[2][0] == 'c':
        return (int(l[2][1]),) * 2
    return None


def overlaps(p, q):
    p, q = span_of(p), span_of(q)
    return p is None or q is None or not (p[1] < q[0] or q[1] < p[0])


def mixes(stmts):
    """On some path, a variable is written through different overlapping parts in another order than
    the one in which the text first writes them, or read after such writes: the analyser keeps one
    value per part and no order among the parts (see the known findings)."""
    first = {}
    order(stmts, first)
    for p in paths(stmts):
        seen = {}
        for e in p:
            ranges = seen.setdefault(e[1], [])
            if e[0] == 'r':
                if any(q != r and overlaps(q, r) for q in ranges for r in ranges):
                    return True
                continue
            at = first[e[1:]]
            if any(r != e[2] and overlaps(e[2], r) and first[(e[1], r)] > at for r in ranges):
                return True
            ranges.append(e[2])
    return False


def order(stmts, first):
    for s in stmts:
        k = s[0]
        if k in ('=', '<='):
            for l in reversed(s[1][1:]) if s[1][0] == 'cat' else (s[1],):
                first.setdefault((l[1], target(l)), len(first))
        elif k in ('if', 'if1'):
            for b in s[2:]:
                if b is not None:
                    order(b if k == 'if' else [b], first)
        elif k in ('case', 'casex', 'casez'):
            for c, b in sorted(s[2], key=lambda x: x[0] is None):
                order(b, first)
        elif k == 'for':
            first.setdefault((s[1], None), len(first))
            order(s[5], first)
        elif k == 'while':
            order(s[2], first)
        elif k == 'block':
            order(s[3], first)


# -- the simulator ------------------------------------------------------------------------
def vvp(text):
    """what the installed simulator prints for a source text"""
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    try:
        with open(d + '/t.v', 'w') as f:
            f.write(text)
        r = subprocess.run(['iverilog', '-g2012', '-o', d + '/t.out', d + '/t.v'], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('simulator rejected the reference text: %s\n%s' % (r.stderr[:600], text[:3000]))
        return subprocess.run(['vvp', '-n', d + '/t.out'], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(d)


def simulate(jobs):
    """jobs: (module texts, top name, inputs [(name, width)], vectors, observed expressions, clocked)
    -> for every job and vector, the list of printed values.  A vector is {name: value}; when clocked,
    names with a dot are registers, set before the rising edge of CLK."""
    out, body = [], []
    for j, (text, top, ins, vecs, obs, clocked) in enumerate(jobs):
        out.append(text)
        out.append('module tb%d; %s %s %s(%s);' % (
            j, ' '.join('reg %s %s;' % ('[%d:0]' % (w - 1) if w > 1 else '', n) for n, w in ins), top, 'u', ', '.join('.%s(%s)' % (n, n) for n, w in ins)))
        out.append('initial begin #%d;' % (10 * sum(len(q[3]) + 1 for q in jobs[:j]) + 1))
        for v in vecs:
            out.append(' '.join('%s = %d;' % (n, x) for n, x in v.items() if '.' not in n) + ' #3')
            out.append(' '.join('u.%s = %d;' % (n.split('.', 1)[1], x) for n, x in v.items() if '.' in n) + ' #3')
            if clocked:
                out.append('CLK = 1;')
            out.append('#1 $display("%s"%s);' % (' '.join(['V'] + ['%b'] * len(obs)), ''.join(', u.' + o for o in obs)))
            if clocked:
                out.append('CLK = 0;')
            out.append('#3;')
        out.append('end endmodule')
    lines = [l.split()[1:] for l in vvp('\n'.join(out) + '\n').split('\n') if l.startswith('V')]
    res = []
    for q in jobs:
        res.append(lines[:len(q[3])])
        lines = lines[len(q[3]):]
    assert not lines and all(len(r) == len(q[3]) for r, q in zip(res, jobs))
    return res


def agrees(ref, printed, w):
    """a reference value (v, x, h) against what the simulator printed; held bits are not compared"""
    for i in range(w):
        if (ref[1] | ref[2]) >> i & 1:
            continue
        if printed[w - 1 - i] != str(ref[0] >> i & 1):
            return False
    return True


# -- the analysed design --------------------------------------------------------------------
class Flow(object):
    """Meaning of an analysed design: signals by flat name, evaluated from their bindings."""

    def __init__(self, terms, binddict):
        self.terms, self.binds = terms, binddict
        self.by = {str(n): n for n in terms}
        self.bindof = {str(n): bs for n, bs in binddict.items()}
        self.shapes = Shapes(self)
        self.ev = dfv.Full(self.shapes, True, Integers(self))
        self.busy = set()

    def const(self, t):
        return self.ev.value(t, Values(self, {}))[0]

    def rename(self, n):
        """A renamed variable stands for the value of one assignment, whatever part that assigns
        (this is how merge and walker read it)."""
        if 'Rename' in self.terms[n].termtype:
            bs = self.bindof.get(str(n), ())
            if len(bs) == 1 and (bs[0].msb is not None or bs[0].ptr is not None):
                return bs[0]
        return None

    def shape(self, n):
        t = self.terms[n]
        b = self.rename(n)
        if b is not None and b.msb is not None:
            return (abs(self.ev.span(b)[0] - self.ev.span(b)[1]) + 1, 0, False)
        m = 0 if t.msb is None else self.const(t.msb)
        l = 0 if t.lsb is None else self.const(t.lsb)
        r = (abs(m - l) + 1, l, m < l)
        if t.dims is not None and b is None:
            if len(t.dims) != 1:
                raise dfv.Bad('dimensions of %s' % (n,))
            a, b = [self.const(x) for x in t.dims[0]]
            r += ((min(a, b), max(a, b)),)
        return r

    def value(self, n, env):
        """(v, x, h, w) of signal n, or a list of those for a memory"""
        sh = self.shapes[n]
        w = sh[0]
        mem = len(sh) > 3
        cur = [(0, 0, mask(w))] * (sh[3][1] - sh[3][0] + 1) if mem else (0, 0, mask(w))
        vals = env if isinstance(env, Values) else Values(self, env)
        part = self.rename(n)
        for b in self.bindof.get(str(n), ()):
            word = None
            if b.ptr is not None and part is None:
                p = self.ev.value(b.ptr, vals)
                if p[1] or p[2]:
                    raise dfv.Bad('unknown index')
                if mem:
                    word = p[0] - sh[3][0]
                    if not 0 <= word < len(cur):
                        continue
                else:
                    raise dfv.Bad('index of a signal that is no memory')
            pos, k = 0, w
            if part is None and (b.msb is not None or b.lsb is not None):
                m, l = self.ev.value(b.msb, vals), self.ev.value(b.lsb, vals)
                if m[1] or l[1]:
                    raise dfv.Bad('unknown bounds')
                m, l = m[0], l[0]
                if sh[2]:
                    m, l = sh[1] - m, sh[1] - l
                else:
                    m, l = m - sh[1], l - sh[1]
                if m < l or l < 0 or m >= w:
                    raise dfv.Bad('bounds [%d:%d] of %s' % (m, l, n))
                pos, k = l, m - l + 1
            if b.tree is None:
                raise dfv.Bad('binding without a value')
            tw, ts = self.ev.shape(b.tree)
            r = self.ev.ev(b.tree, vals, max(k, tw), ts)
            v, x, h = r[0] & mask(k), r[1] & mask(k), r[2] & mask(k)
            if tw < k and h and h == mask(tw):
                h = mask(k)         # a hold is a hold of the whole target
            old = cur if word is None else cur[word]
            if word is None and mem:
                raise dfv.Bad('binding of a whole memory')
            keep = h << pos
            km = (mask(k) << pos) & ~keep
            new = ((old[0] & ~km) | ((v << pos) & km), (old[1] & ~km) | ((x << pos) & km), old[2] & ~km)
            if word is None:
                cur = new
            else:
                cur = cur[:word] + [new] + cur[word + 1:]
        return cur


class Integers(object):
    """the signals read as signed numbers: integers, and constants without a range (32 bits) whose value is signed"""

    def __init__(self, flow):
        self.flow, self.known = flow, {}

    def __contains__(self, n):
        k = self.flow.terms[n].termtype
        if 'Integer' in k:
            return True
        if not k & {'Parameter', 'Localparam'} or self.flow.shapes[n][0] != 32:
            return False
        if n not in self.known:
            self.known[n] = False
            bs = self.flow.bindof.get(str(n), ())
            self.known[n] = len(bs) == 1 and bs[0].tree is not None and self.flow.ev.shape(bs[0].tree)[1]
        return self.known[n]


class Shapes(dict):
    def __init__(self, flow):
        self.flow = flow

    def __contains__(self, n):
        return n in self.flow.terms

    def __missing__(self, n):
        r = self[n] = self.flow.shape(n)
        return r


class Values(object):
    """lazy valuation of the analysed signals; env: {flat name: value} of the given ones"""

    def __init__(self, flow, env):
        self.flow, self.env, self.memo = flow, env, {}

    def __contains__(self, n):
        return n in self.flow.terms

    def __getitem__(self, n):
        s = str(n)
        if s in self.env:
            return self.env[s]
        if s in self.memo:
            return self.memo[s]
        if s in self.flow.busy:
            w = self.flow.shapes[n][0]
            return (0, mask(w))     # its own previous value
        self.flow.busy.add(s)
        try:
            v = self.flow.value(n, self)
        finally:
            self.flow.busy.discard(s)
        if isinstance(v, list):
            if any(x[1] or x[2] for x in v):
                raise Skip('memory with unknown words')
            r = tuple(x[0] for x in v)
        else:
            r = (v[0], v[1] | v[2]) if v[1] | v[2] else v[0]
        self.memo[s] = r
        return r


def rename_module(text, old, new):
    """a module under another name, in its definition and its instances"""
    import re
    return re.sub(r'(^module |^|; |begin |generate |: \w+ )%s(?= [#\w\[]|\(|\[)' % old, lambda m: m.group(1) + new, text, flags=re.M)
