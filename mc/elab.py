"""Hierarchical designs as data: their text, and a reference elaborator.

A module is a list of items (tuples, expressions as in mc.sim):
  ('param', name, range|None, expr)            ('localparam', name, range|None, expr)
  ('sig', kind, name, range|None, dims|None)   (kind 'input', 'output', 'wire', 'reg', 'output reg', 'integer', 'supply0' ...)
  ('assign', lhs, expr)  ('always', sens, stmts[, word])  ('func', sim.Func)  ('genvar', name)
  ('inst', module, name, parameters, ports, array|None)   parameters, ports: lists of (name|None, expr|None)
  ('gate', kind, name, args, array|None)
  ('genfor', var, init, cond, step, label|None, items)
  ('genif', cond, label|None, items, else label|None, else items|None)
  ('gencase', expr, [(conditions|None, label|None, items)])
  ('generate', items)
Ranges and selection bounds may be expressions over parameters.  elaborate() gives a flat
mc.sim.Design whose names are hierarchical paths ('u0.blk[1].x'), the instances and the constants.
"""
import itertools

from mc import dfv, sim
from mc.dfv import mask, Skip
from mc.sim import K, U, V, Design, Sig, expr_text, lhs_text, stmt_text, block_text


class Mod(object):
    def __init__(self, name, items, style='ansi'):
        self.name, self.items, self.style = name, list(items), style

    def ports(self):
        return [i for i in self.items if i[0] == 'sig' and i[1].startswith(('input', 'output', 'inout'))]

    def params(self):
        return [i for i in self.items if i[0] == 'param']

    def text(self):
        ps, pa = self.ports(), self.params()
        if self.style == 'ansi':
            head = 'module %s%s(%s);' % (self.name, ' #(%s)' % ', '.join(decl(i)[:-1] for i in pa) if pa else '', ', '.join(decl(i)[:-1] for i in ps))
            rest = [i for i in self.items if i not in ps and i not in pa]
        elif self.style == 'mixed':        # ports in the header, parameters in the body
            head = 'module %s(%s);' % (self.name, ', '.join(decl(i)[:-1] for i in ps))
            rest = pa + [i for i in self.items if i not in ps and i not in pa]
        else:
            head = 'module %s(%s);' % (self.name, ', '.join(i[2] for i in ps))
            rest = []
            for i in pa + [i for i in self.items if i not in pa]:
                if i[0] == 'sig' and i[1] == 'output reg':
                    rest += [('sig', 'output') + i[2:], ('sig', 'reg') + i[2:]]
                else:
                    rest.append(i)
        return '\n'.join([head] + [text(i) for i in rest] + ['endmodule'])


def rng(r):
    return '' if r is None else '[%s:%s] ' % (ex(r[0]), ex(r[1]))


def ex(e):
    return str(e) if isinstance(e, int) else xtext(e)


def decl(i):
    if i[0] in ('param', 'localparam'):
        return '%s %s%s = %s;' % ('parameter' if i[0] == 'param' else i[0], rng(i[2]), i[1], xtext(i[3]))
    d = '' if len(i) < 5 or i[4] is None else ' [%s:%s]' % (ex(i[4][0]), ex(i[4][1]))
    return '%s %s%s%s;' % (i[1], rng(i[3]), i[2], d)


def walk(e):
    """expression with expression bounds -> expression with printed bounds"""
    if isinstance(e, tuple):
        if e and e[0] == 'part' and not (isinstance(e[2], int) and isinstance(e[3], int)):
            return ('c', '%s[%s:%s]' % (e[1], ex(e[2]), ex(e[3])))
        if e and e[0] == 'rep' and not isinstance(e[1], int):
            return ('c', '{%s{%s}}' % (ex(e[1]), xtext(e[2])))
        return tuple(walk(x) for x in e)
    if isinstance(e, list):
        return [walk(x) for x in e]
    return e


def xtext(e):
    return expr_text(walk(e))


def text(i):
    k = i[0]
    if k in ('param', 'localparam', 'sig'):
        return decl(i)
    if k == 'genvar':
        return 'genvar %s;' % i[1]
    if k == 'func':
        return i[1].text()
    if k == 'inst':
        one = lambda p: ('.%s(%s)' % (p[0], '' if p[1] is None else xtext(p[1]))) if p[0] is not None else '' if p[1] is None else xtext(p[1])
        return '%s %s%s%s(%s);' % (i[1], '#(%s) ' % ', '.join(one(p) for p in i[3]) if i[3] else '', i[2], '' if i[5] is None else '[%s:%s] ' % (ex(i[5][0]), ex(i[5][1])), ', '.join(one(p) for p in i[4]))
    if k == 'gate':
        return '%s %s%s(%s);' % (i[1], i[2], '' if i[4] is None else '[%s:%s] ' % (ex(i[4][0]), ex(i[4][1])), ', '.join(xtext(a) for a in i[3]))
    blk = lambda label, items: 'begin%s %s end' % (' : ' + label if label else '', ' '.join(text(x) for x in items))
    if k == 'genfor':
        return 'for (%s = %s; %s; %s = %s) %s' % (i[1], xtext(i[2]), xtext(i[3]), i[1], xtext(i[4]), blk(i[5], i[6]))
    if k == 'genif':
        r = 'if (%s) %s' % (xtext(i[1]), blk(i[2], i[3]))
        if i[5] is not None:
            r += ' else ' + (text(i[5][0]) if len(i[5]) == 1 and i[5][0][0] == 'genif' and i[4] is None else blk(i[4], i[5]))
        return r
    if k == 'gencase':
        return 'case (%s) %s endcase' % (xtext(i[1]), ' '.join('%s: %s' % ('default' if c is None else ', '.join(xtext(x) for x in c), blk(l, b)) for c, l, b in i[2]))
    if k == 'generate':
        return 'generate %s endgenerate' % ' '.join(text(x) for x in i[1])
    return sim.item_text(walk(i))


class Flat(object):
    pass


class Elab(object):
    def __init__(self, mods, top):
        self.mods = {m.name: m for m in mods}
        self.sigs, self.items, self.funcs = [], [], []
        self.consts = {}            # path -> (value, width, signed)
        self.kinds = {}             # path of a constant -> 'param' or 'localparam'
        self.names = {}             # path of a signal -> Sig
        self.insts = []
        self.hidden = set()         # paths below unlabelled blocks
        self.vname = {}             # path -> path in Verilog
        self.late = []
        self.unnamed = 0
        self.module(top, '', '', {}, [])
        for f in self.late:
            f()
        self.design = Design(self.sigs, self.items, self.funcs)

    # -- constants
    def const(self, e, scopes):
        """value, width, signed of a constant expression"""
        e = self.rewrite(e, scopes)
        m = sim.Machine(Design([], []))
        t = m.build(e, None, [])
        w, s = m.ev.shape(t)
        v, x, k = m.eval(e, {})
        if x:
            raise Skip('constant with unknown bits')
        if s and v >> (w - 1):
            v -= 1 << w
        return v, w, s

    def num(self, e, scopes):
        return e if isinstance(e, int) else self.const(e, scopes)[0]

    def literal(self, c):
        v, w, s = c
        if w == 32 and s:
            return K(str(v)) if v >= 0 else U('-', K(str(-v)))
        return K("%d'%sd%d" % (w, 's' if s else '', v & mask(w)))

    # -- names: scopes is the list of prefixes, innermost first
    def find(self, n, scopes):
        head = n.split('.')[0].split('[')[0]
        for p in scopes:
            if p + n in self.names or p + n in self.consts:
                return p + n
            if p.endswith('|'):
                break
        return None

    def rewrite(self, e, scopes):
        k = e[0]
        if k == 'c':
            return e
        if k == 'v':
            if e[1] in self.genvars:
                return self.literal((self.genvars[e[1]], 32, True))
            p = self.lookup(e[1], scopes)
            return self.literal(self.consts[p]) if p in self.consts else V(p)
        r = lambda x: self.rewrite(x, scopes)
        if k in ('idx', 'midx', 'mpart', 'ip', 'im', 'part'):
            p = self.lookup(e[1], scopes)
            if p in self.consts:
                v, w, s = self.consts[p]
                if k == 'idx':
                    b = self.num(e[2], scopes)
                    return K("1'd%d" % (v >> b & 1))
                if k == 'part':
                    h, l = self.num(e[2], scopes), self.num(e[3], scopes)
                    return K("%d'd%d" % (h - l + 1, (v & mask(w)) >> l & mask(h - l + 1)))
                raise Skip('selection of a constant')
            if k == 'part':
                return ('part', p, self.num(e[2], scopes), self.num(e[3], scopes))
            return (k, p, r(e[2])) + tuple(self.num(x, scopes) for x in e[3:])
        if k == 'rep':
            return ('rep', self.num(e[1], scopes), r(e[2]))
        if k in ('call', 'sys'):
            return (k, e[1]) + tuple(r(x) for x in e[2:])
        if k in ('u', 'b'):
            return (k, e[1]) + tuple(r(x) for x in e[2:])
        return (k,) + tuple(r(x) for x in e[1:])

    def lookup(self, n, scopes):
        for p in scopes:
            if p + n in self.names or p + n in self.consts:
                return p + n
        if '.' in n:
            raise KeyError(n)
        self.declare(scopes[-1], n, Sig(n, 'wire'), scopes[-1])
        return scopes[-1] + n

    def declare(self, prefix, n, sig, vprefix):
        path = prefix + n
        sig.name = path
        self.names[path] = sig
        self.vname[path] = self.vpre.get(prefix, prefix) + n
        self.sigs.append(sig)
        if any(h and prefix.startswith(h) for h in self.hidden):
            self.hidden.add(path)

    vpre = {}
    genvars = {}

    # -- elaboration
    def module(self, name, path, vpath, given, ports):
        m = self.mods[name]
        self.insts.append((path[:-1], name))
        if not self.vpre:
            self.vpre = {}
        self.vpre[path] = vpath
        saved, self.genvars = self.genvars, {}
        for i in m.items:
            if i[0] == 'param':
                self.constant(i, path, [path], given.get(i[1]))
        self.body(m.items, [path], True)
        self.genvars = saved

    def constant(self, i, path, scopes, given=None):
        v, w, s = given if given is not None else self.const(i[3], scopes)
        if i[2] is not None:
            w = abs(self.num(i[2][0], scopes) - self.num(i[2][1], scopes)) + 1
            v, s = v & mask(w), False
        self.consts[path + i[1]] = (v, w, s)
        self.kinds[path + i[1]] = i[0]

    def body(self, items, scopes, skip_params=False):
        path = scopes[0]
        # declarations first: the order of declaration and use does not matter to the tests made here
        for i in items:
            if i[0] == 'localparam' or (i[0] == 'param' and not skip_params):
                self.constant(i, path, scopes)
            elif i[0] == 'sig':
                r = (None, None) if i[3] is None else (self.num(i[3][0], scopes), self.num(i[3][1], scopes))
                d = None if len(i) < 5 or i[4] is None else (self.num(i[4][0], scopes), self.num(i[4][1], scopes))
                kind = i[1] if path == '' or not i[1].startswith('input') else 'wire'
                self.declare(path, i[2], Sig(i[2], kind, r[0], r[1], d), path)
                if kind in ('supply0', 'supply1'):
                    self.items.append(('assign', V(path + i[2]), K('0') if kind == 'supply0' else U('~', K('0'))))
        for i in items:
            self.item(i, scopes)

    def later(self, f):
        g = dict(self.genvars)

        def run():
            self.genvars = g
            f()
        self.late.append(run)

    def item(self, i, scopes):
        path = scopes[0]
        k = i[0]
        if k == 'assign':
            self.later(lambda: self.items.append(('assign', self.left(i[1], scopes), self.rewrite(i[2], scopes))))
        elif k == 'always':
            def al():
                sens = i[1]
                if sens != '*':
                    ws = sens.strip('()').replace(',', ' or ').split()
                    ws = [w if w in ('posedge', 'negedge', 'or') else self.lookup(w, scopes) for w in ws]
                    sens = '(%s)' % ' '.join(ws)
                self.items.append(('always', sens, self.stmts(i[2], scopes)))
            self.later(al)
        elif k == 'inst':
            self.instance(i, scopes)
        elif k == 'gate':
            self.gate(i, scopes)
        elif k == 'generate':
            for x in i[1]:
                if x[0] in ('sig', 'localparam', 'param'):
                    self.body([x], scopes)
                else:
                    self.item(x, scopes)
        elif k == 'genfor':
            saved = dict(self.genvars)
            self.genvars[i[1]] = self.num(i[2], scopes)
            while self.num(i[3], scopes):
                n = self.genvars[i[1]]
                self.block(i[6], i[5], '[%d]' % n, scopes)
                self.genvars[i[1]] = n
                self.genvars[i[1]] = self.num(i[4], scopes)
            self.genvars = saved
        elif k == 'genif':
            if self.num(i[1], scopes):
                self.block(i[3], i[2], '', scopes)
            elif i[5] is not None:
                if len(i[5]) == 1 and i[5][0][0] == 'genif' and i[4] is None:
                    self.item(i[5][0], scopes)
                else:
                    self.block(i[5], i[4], '', scopes)
        elif k == 'gencase':
            v = self.num(i[1], scopes)
            default = None
            for c, l, b in i[2]:
                if c is None:
                    default = (l, b)
                elif any(self.num(x, scopes) == v for x in c):
                    return self.block(b, l, '', scopes)
            if default:
                self.block(default[1], default[0], '', scopes)

    def block(self, items, label, index, scopes):
        if label is None:
            self.unnamed += 1
            p = scopes[0] + '?%d.' % self.unnamed
            self.hidden.add(p)
        else:
            p = scopes[0] + label + index + '.'
        self.vpre[p] = self.vpre[scopes[0]] + (label or '?') + index + '.'
        saved = dict(self.genvars)
        self.body(items, [p] + scopes)
        self.genvars = saved

    def instance(self, i, scopes):
        k, mod, name, params, ports, arr = i
        m = self.mods[mod]
        given = {}
        for n, (pn, e) in enumerate(params):
            if e is not None:
                given[pn if pn is not None else m.params()[n][1]] = self.const(e, scopes)
        if arr is None:
            places = [(name, name, 0, 1)]
        else:
            l, r = self.num(arr[0], scopes), self.num(arr[1], scopes)
            order = range(r, l + 1) if l >= r else range(r, l - 1, -1)      # from the right: lowest bits first
            order = list(order)
            places = [('%s_%d' % (name, n), '%s[%d]' % (name, n), at, len(order)) for at, n in enumerate(order)]
        for pyname, vname, at, count in places:
            path = scopes[0] + pyname + '.'
            self.module(mod, path, self.vpre[scopes[0]] + vname + '.', given, ports)
            decls = m.ports()
            for n, (pn, e) in enumerate(ports):
                if e is None:
                    continue
                d = decls[n] if pn is None else [q for q in decls if q[2] == pn][0]
                self.connect(d, path, e, at, count, arr, scopes)

    def connect(self, d, path, e, at, count, arr, scopes):
        def go():
            port = self.names[path + d[2]]
            if d[1].startswith('input'):
                x = self.rewrite(e, scopes)
                if arr is not None:
                    x = self.slice(x, port.width, at, count)
                self.items.append(('assign', V(path + d[2]), x))
            else:
                x = self.left(e, scopes)
                if arr is not None:
                    x = self.slice(x, port.width, at, count)
                self.items.append(('assign', x, V(path + d[2])))
        self.later(go)

    def slice(self, x, w, at, count):
        """what the at-th instance (from the right) of an array gets of a connected signal"""
        if x[0] == 'v':
            s = self.names[x[1]]
            if s.width == w:
                return x
            if s.width != w * count:
                raise Skip('width of an array connection')
            lo, hi = at * w, at * w + w - 1
            if s.desc:
                return ('part', x[1], s.low + s.width - 1 - hi, s.low + s.width - 1 - lo)
            return ('part', x[1], s.low + hi, s.low + lo)
        if x[0] == 'part':
            n = abs(x[2] - x[3]) + 1
            if n == w:
                return x
            if n != w * count:
                raise Skip('width of an array connection')
            if x[2] >= x[3]:
                return ('part', x[1], x[3] + at * w + w - 1, x[3] + at * w)
            return ('part', x[1], x[3] - at * w - w + 1, x[3] - at * w)
        if x[0] == 'idx' or x[0] == 'c':
            return x
        if x[0] == 'cat' and all(y[0] in ('v', 'idx') for y in x[1:]):
            ws = [1 if y[0] == 'idx' else self.names[y[1]].width for y in x[1:]]
            if sum(ws) == w:
                return x
            if all(q == w for q in ws) and len(ws) == count:
                return x[len(ws) - at]
        raise Skip('array connection')

    GATES = {'and': 'Uand', 'or': 'Uor', 'xor': 'Uxor', 'nand': 'Unand', 'nor': 'Unor', 'xnor': 'Uxnor'}

    def gate(self, i, scopes):
        k, kind, name, args, arr = i

        def go():
            if arr is None:
                places = [(0, 1)]
            else:
                l, r = self.num(arr[0], scopes), self.num(arr[1], scopes)
                places = [(n, abs(l - r) + 1) for n in range(abs(l - r) + 1)]
            cut = lambda x, at, count: x if arr is None else self.slice(x, 1, at, count)
            for at, count in places:
                if kind in self.GATES:
                    outs, ins = args[:1], args[1:]
                    e = ('u', self.GATES[kind], ('cat',) + tuple(('b', 'And', cut(self.rewrite(x, scopes), at, count), K("1'b1")) for x in ins))
                else:
                    outs, ins = args[:-1], args[-1:]
                    e = cut(self.rewrite(ins[0], scopes), at, count)
                    e = ('b', 'And', e, K("1'b1"))
                    if kind == 'not':
                        e = ('u', 'Unot', e)
                for o in outs:
                    self.items.append(('assign', cut(self.left(o, scopes), at, count), e))
        self.later(go)

    def left(self, l, scopes):
        if l[0] == 'cat':
            return ('cat',) + tuple(self.left(x, scopes) for x in l[1:])
        return self.rewrite(l, scopes)

    def stmts(self, ss, scopes):
        r = []
        for s in ss:
            k = s[0]
            if k in ('=', '<='):
                r.append((k, self.left(s[1], scopes), self.rewrite(s[2], scopes)))
            elif k == 'if':
                r.append((k, self.rewrite(s[1], scopes), self.stmts(s[2], scopes), None if s[3] is None else self.stmts(s[3], scopes)))
            elif k == 'case':
                r.append((k, self.rewrite(s[1], scopes), [(None if c is None else [self.rewrite(x, scopes) for x in c], self.stmts(b, scopes)) for c, b in s[2]]))
            elif k == 'for':
                r.append((k, self.lookup(s[1], scopes)) + tuple(self.rewrite(x, scopes) for x in s[2:5]) + (self.stmts(s[5], scopes),))
            else:
                raise ValueError(s)
        return r


def canon(chain):
    """(path, in an unlabelled block) of an analysed scope chain, without its first part (the top)"""
    out, loop, hidden = [], None, False
    for l in chain.scopechain[1:]:
        if l.scopetype == 'for':
            loop = l.scopeloop
        elif l.scopetype == 'block':
            out.append(l.scopename + ('' if loop is None else '[%s]' % loop))
            loop = None
        elif l.scopetype in ('module', 'signal'):
            out.append(l.scopename)
    return '.'.join(out)
