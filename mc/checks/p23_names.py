"""P23: hierarchical names are resolved and compared exactly."""
import itertools
import os
import subprocess
import tempfile

from mc import core, dfv, sim, vp


# -- scope names: labels and chains against tuples ------------------------------------------------
TYPES = ('any', 'module', 'block', 'signal', 'for', 'generate', 'function')


def same_label(a, b):
    return a[0] == b[0] and a[2] == b[2] and (a[1] == b[1] or 'any' in (a[1], b[1]))


def same_chain(x, y):
    return len(x) == len(y) and all(map(same_label, x, y))


def printed(l):
    return l[0] if l[2] is None else '%s[%d]' % (l[0], l[2])


def algebra(unit, st):
    from pyverilog.utils import util
    from pyverilog.utils.scope import ScopeChain, ScopeLabel
    from pyverilog.utils.verror import DefinitionError
    labels = [(n, t, l) for n in ('a', 'b') for t in TYPES for l in (None, 0, 1)]
    few = [('a', 'module', None), ('a', 'any', None), ('b', 'signal', None), ('a', 'for', 0), ('a', 'for', 1), ('a', 'any', 1)]
    make = lambda m: ScopeChain([ScopeLabel(*l) for l in m])
    plain = lambda c: tuple((l.scopename, l.scopetype, l.scopeloop) for l in c)
    fail = lambda key, what: st.fail('algebra: %s' % key, what, {'case': key})

    def eq(key, a, b, want):
        st.count('evaluations')
        st.count('transitions')
        got = (a == b, not a != b, b == a)
        if got != (want,) * 3:
            fail(key, 'compared: %s, they are %s' % (got, 'equal' if want else 'different'))
        if want and (hash(a) != hash(b) or {a: 1}.get(b) != 1 or b not in [a]):
            fail(key, 'equal names are not found by each other in a table')
        if not want and {a: 1}.get(b) is not None:
            fail(key, 'a different name is found in a table')
    if unit == 'labels':
        for a, b in itertools.product(labels, repeat=2):
            key = 'labels %s %s' % (a, b)
            st.state(key)
            eq(key, ScopeLabel(*a), ScopeLabel(*b), same_label(a, b))
            if str(ScopeLabel(*a)) != printed(a):
                fail('print %s' % (a,), 'printed as %s' % ScopeLabel(*a))
        for x in ('a', 1, None, ('a',)):
            st.count('evaluations')
            if ScopeLabel('a') == x or not ScopeLabel('a') != x or make(few[:1]) == x or not make(few[:1]) != x:
                fail('equal to %r' % (x,), 'a name equals something that is no name')
        for bad, fn in (('no kind', lambda: ScopeLabel('a', 'nokind')), ('add text', lambda: make(few[:1]) + 'a'), ('add nothing', lambda: make(few[:1]) + None)):
            st.count('evaluations')
            r = core.attempt(fn)
            if r[:2] != ('exc', 'DefinitionError'):
                fail(bad, 'gives %s, not a DefinitionError' % (r,))
        return
    chains = [c for n in range(3 if unit == 'chains' else 4) for c in itertools.product(few, repeat=n)]
    if unit == 'chains':
        for x, y in itertools.product(chains, repeat=2):
            key = 'chains %s %s' % ('.'.join(map(printed, x)), '.'.join(map(printed, y)))
            st.state((x, y))
            a, b = make(x), make(y)
            eq(key, a, b, same_chain(x, y))
            both = a + b
            if plain(both) != x + y or plain(a) != x or plain(b) != y:
                fail(key, 'the sum is %s' % (plain(both),))
            both.append(ScopeLabel('z'))
            both.extend([ScopeLabel('z')])
            if plain(both) != x + y + (('z', 'any', None),) * 2 or plain(a) != x or plain(b) != y:
                fail(key, 'extending the sum changes it to %s and its parts to %s, %s' % (plain(both), plain(a), plain(b)))
            whole = a + b
            if len(x) and not (whole[:len(x)] == a and whole[len(x):] == b):
                fail(key, 'the parts of the sum are not the parts it was made of')
        return
    for x in chains:
        st.count('evaluations')
        st.state(x)
        a = make(x)
        key = 'chain ' + '.'.join(map(printed, x))
        if len(a) != len(x) or plain(a) != x or [a[i] for i in range(len(x))] != [ScopeLabel(*l) for l in x]:
            fail(key, 'its parts are %s' % (plain(a),))
        if str(a) != '.'.join(map(printed, x)):
            fail(key, 'printed as %s' % a)
        if [plain([l])[0] for l in a.get_module_list()] != [l for l in x if l[1] == 'module']:
            fail(key, 'its modules are %s' % a.get_module_list())
        for l in few:
            st.count('transitions')
            if plain(a + ScopeLabel(*l)) != x + (l,) or (a + ScopeLabel(*l))[:-1] != a or plain(a) != x:
                fail(key, 'extended by %s it is %s' % (l, plain(a + ScopeLabel(*l))))
        for i in list(range(-4, 5)) + [None]:
            for j in list(range(-4, 5)) + [None]:
                for k in (None, 1, 2, -1):
                    st.count('transitions')
                    if plain(a[i:j:k]) != x[i:j:k]:
                        fail('%s [%s:%s:%s]' % (key, i, j, k), 'gives %s' % a[i:j:k])
        if x:
            # the printed name selects the same name when it is given back
            for q in (str(a), str(a).split('.'), tuple(str(a).split('.'))):
                st.count('transitions')
                if util.toTermname(q) != a or {a: 1}.get(util.toTermname(q)) != 1:
                    fail(key, 'its text %r gives another name: %s' % (q, plain(util.toTermname(q))))
    for bad in (3, None, ('a', 3)):
        if core.attempt(lambda: util.toTermname(bad))[:2] != ('exc', 'TypeError'):
            fail('toTermname %r' % (bad,), 'no TypeError')


# -- names in designs ---------------------------------------------------------------------------------
class Scope(object):
    """a scope of a design: module, inst, for, if, block, function; decl is the kind of its x or None"""

    def __init__(self, kind, name, decl=None, children=()):
        self.kind, self.name, self.decl, self.children = kind, name, decl, list(children)
        self.parent = None
        for c in self.children:
            c.parent = self

    def walk(self):
        yield self
        for c in self.children:
            for x in c.walk():
                yield x


class Place(object):
    """one elaborated scope"""

    def __init__(self, scope, parent, index=None):
        self.scope, self.parent, self.index = scope, parent, index
        self.children = [Place(c, self, i) for c in scope.children for i in ((0, 1) if c.kind == 'for' else (None,))]

    def label(self):
        return self.scope.name + ('' if self.index is None else '[%d]' % self.index)

    def path(self):
        return [] if self.parent is None else self.parent.path() + [self.label()]

    def walk(self):
        yield self
        for c in self.children:
            for x in c.walk():
                yield x

    def value(self):
        """value of the x declared here"""
        v, p, f = self.scope.base, self, 32
        seen = []
        while p is not None:
            if p.index is not None:
                seen.append(p.index)
            p = p.parent
        for i in reversed(seen):
            v += i * f
            f *= 2
        return v % 256

    def simple(self):
        """the place whose x the name x denotes here"""
        p = self
        while p is not None:
            if p.scope.decl:
                return p
            if p.scope.kind in ('module', 'inst'):
                return None
            p = p.parent
        return None

    def child(self, name, index):
        for c in self.children:
            if c.scope.name == name and c.index == index:
                return c
        return None

    def found(self, comps):
        """the place that a hierarchical name denotes here, by the rules of the language"""
        p = self
        while p is not None:
            q = None
            if any(c.scope.name == comps[0][0] for c in p.children):
                q = p.child(*comps[0])
                if q is None:
                    return None
            elif p.scope.kind in ('module', 'inst') and comps[0] == (p.scope.module, None):
                q = p
            if q is not None:
                for n, i in comps[1:]:
                    q = q.child(n, i)
                    if q is None:
                        return None
                return q if q.scope.decl else None
            p = p.parent
        return None


class Text(object):
    """a design as text: one module per instantiated scope"""

    def __init__(self, top, k, refs=True):
        self.top, self.k = top, k
        self.modules = []
        n = 0
        for s in top.walk():
            n += 1
            s.base = n * 3
            if s.kind in ('module', 'inst'):
                s.module = '%s%d' % ('m' if s.kind == 'module' else 's%d_' % n, k)
        self.root = Place(top, None)
        self.refs = {}      # scope -> [(name of the probe, components)]
        if refs:
            self.make_refs()
        self.module(top)
        self.text = '\n'.join(self.modules)

    def make_refs(self):
        places = list(self.root.walk())
        for s in self.top.walk():
            if s.kind in ('block', 'function'):
                continue
            here = [p for p in places if p.scope is s]
            seen = []
            for t in places:
                if not t.scope.decl or t.scope.kind == 'function' or t.parent is None:
                    continue
                chain = []
                p = t
                while p is not None:
                    chain.insert(0, (p.scope.name, p.index))
                    for comps in ([tuple(chain)] if p.parent is not None else [((p.scope.module, None),) + tuple(chain[1:])]) + ([((p.scope.module, None),) + tuple(chain[1:])] if p.scope.kind == 'inst' and len(chain) > 1 else []):
                        if comps not in seen and all(h.found(comps) is not None for h in here):
                            seen.append(comps)
                    p = p.parent
            if s.kind != 'module' and s.parent is not None and self.top.decl:
                comps = ((self.top.module, None),)
                if all(h.found(comps) is not None for h in here):
                    seen.append(comps)
            self.refs[s] = [('q%d' % i, c) for i, c in enumerate(seen)]

    def val(self, s):
        """text of the value of the x of a scope"""
        fors = []
        p = s
        while True:
            if p.kind == 'for':
                fors.insert(0, p)
            if p.kind in ('module', 'inst'):
                break
            p = p.parent
        outer = 0
        q = p.parent
        while q is not None:
            outer += q.kind == 'for'
            q = q.parent
        v = "8'd%d" % s.base
        if outer:
            v += ' + N'
        for j, f in enumerate(fors):
            v += " + %s * 8'd%d" % (f.var, 32 << (outer + j))
        return v

    def args(self, s):
        """value of N that a child instance gets"""
        v = self.val(s)
        return v[len("8'd%d" % s.base):].lstrip(' +') or '0'

    def module(self, s):
        self.vars = getattr(self, 'vars', 0)
        fors = [x for x in s.walk() if x.kind == 'for']
        head = 'module %s #(parameter [7:0] N = 0%s) (input [7:0] t%s);\n' % (s.module, ", parameter [7:0] x = %s" % self.val(s) if s.decl == 'parameter' else '', ', input [7:0] x' if s.decl == 'port' else '')
        body = self.body(s, '  ')
        gen = ['genvar %s;' % f.var for f in fors if self.owner(f) is s]
        self.modules.append(head + ''.join('  %s\n' % g for g in gen) + body + 'endmodule')

    def owner(self, s):
        while s.kind not in ('module', 'inst'):
            s = s.parent
        return s

    def body(self, s, ind):
        o = []
        if s.decl == 'wire':
            o.append('wire [7:0] x; assign x = %s;' % self.val(s))
        elif s.decl == 'wire value':
            o.append('wire [7:0] x = %s;' % self.val(s))
        elif s.decl == 'localparam':
            o.append('localparam [7:0] x = %s;' % self.val(s))
        elif s.decl == 'reg':
            o.append('reg [7:0] x; always @* x = (%s) + t;' % self.val(s))
        elif s.decl in ('remote', 'remote parts'):
            o.append('wire [7:0] x;')
        elif s.decl == 'remote reg':
            o.append('reg [7:0] x;')
        me = [p for p in self.root.walk() if p.scope is s]
        src = me[0].simple()
        if src is not None:
            o.append('wire [7:0] p; assign p = x;')
            if src.scope.decl in ('localparam', 'parameter'):
                o.append('wire [x:0] r; assign r = 0;')
        for n, comps in self.refs.get(s, ()):
            o.append('wire [7:0] %s; assign %s = %s.x;' % (n, n, '.'.join(a if i is None else '%s[%d]' % (a, i) for a, i in comps)))
        text = ''.join(ind + x + '\n' for x in o)
        for c in s.children:
            text += self.child(c, ind)
        if s is self.top:
            # what is assigned from here to the scopes below
            for p in self.root.walk():
                at = '.'.join(p.path()) + '.x'
                if p.scope.decl == 'remote':
                    text += "%sassign %s = 8'd%d;\n" % (ind, at, p.value())
                elif p.scope.decl == 'remote parts':
                    v = p.value()
                    text += "%sassign %s[7:2] = 6'd%d;\n%sassign %s[1] = 1'b%d;\n%sassign %s[0] = 1'b%d;\n" % (ind, at, v >> 2, ind, at, v >> 1 & 1, ind, at, v & 1)
                elif p.scope.decl == 'remote reg':
                    text += "%salways @* %s = 8'd%d + t;\n" % (ind, at, p.value())
        return text

    def child(self, c, ind):
        top = c.parent.kind in ('module', 'inst')
        if c.kind == 'for':
            c.var = 'i%d' % c.base
            t = '%sfor (%s = 0; %s < 2; %s = %s + 1) begin : %s\n%s%send\n' % (ind, c.var, c.var, c.var, c.var, c.name, self.body(c, ind + '  '), ind)
        elif c.kind == 'if':
            t = '%sif (N < 255) begin : %s\n%s%send\n' % (ind, c.name, self.body(c, ind + '  '), ind)
        elif c.kind == 'inst':
            self.module(c)
            conn = ", .x(%s)" % self.port(c) if c.decl == 'port' else ''
            return '%s%s #(.N(%s)) %s(.t(t)%s);\n' % (ind, c.module, self.args(c.parent), c.name, conn)
        elif c.kind == 'block':
            return self.always(c, ind)
        elif c.kind == 'function':
            src = [p for p in self.root.walk() if p.scope is c][0].simple()
            if src is None:
                return ''
            if c.decl == 'arg':
                return '%sfunction [7:0] %s; input [7:0] x; %s = x; endfunction\n%swire [7:0] p_%s; assign p_%s = %s((%s) + t);\n' % (ind, c.name, c.name, ind, c.name, c.name, c.name, self.val(c))
            d = 'reg [7:0] x; begin x = %s; %s = x + d; end' % (self.val(c), c.name) if c.decl else '%s = x + d;' % c.name
            return '%sfunction [7:0] %s; input [7:0] d; %s endfunction\n%swire [7:0] p_%s; assign p_%s = %s(t%s);\n' % (ind, c.name, d, ind, c.name, c.name, c.name, '' if c.decl else " + (x - x)")
        return '%sgenerate\n%s%sendgenerate\n' % (ind, t, ind) if top else t

    def port(self, c):
        fors = self.args(c.parent)
        return "8'd%d" % c.base + ('' if fors == '0' else ' + ' + fors)

    def always(self, c, ind):
        """named blocks in one another, each with a probe outside"""
        chain = []
        b = c
        while True:
            chain.append(b)
            if not b.children:
                break
            b = b.children[0]
        outs = []
        def inner(i):
            b = chain[i]
            src = [p for p in self.root.walk() if p.scope is b][0].simple()
            t = 'begin : %s ' % b.name
            if b.decl:
                t += 'reg [7:0] x; '
            if b.decl:
                t += 'x = (%s) + t; ' % self.val(b)
            if src is not None:
                outs.append('p_%s' % b.name)
                t += 'p_%s = x + t; ' % b.name
            if i + 1 < len(chain):
                t += inner(i + 1)
                if src is not None:
                    outs.append('e_%s' % b.name)
                    t += 'e_%s = x + t; ' % b.name
            return t + 'end '
        t = inner(0)
        if not outs:
            return ''
        return ''.join('%sreg [7:0] %s;\n' % (ind, x) for x in outs) + '%salways @* %s\n' % (ind, t.rstrip())

    def probes(self):
        """[(path, value)] of the probes, and [(path, upper bound)] of the ranges"""
        vals, ranges = [], []
        for p in self.root.walk():
            src = p.simple()
            at = '.'.join(p.path())
            full = (at + '.') if at else ''
            if p.scope.kind in ('block', 'function'):
                if src is None:
                    continue
                q = p.parent
                while q.scope.kind == 'block':
                    q = q.parent
                up = '.'.join(q.path())
                up = up + '.' if up else ''
                vals.append((up + 'p_' + p.scope.name, src.value()))
                if p.scope.kind == 'block' and p.children:
                    vals.append((up + 'e_' + p.scope.name, src.value()))
                continue
            if src is not None:
                vals.append((full + 'p', src.value()))
                if src.scope.decl in ('localparam', 'parameter'):
                    ranges.append((full + 'r', src.value()))
            for n, comps in self.refs.get(p.scope, ()):
                vals.append((full + n, p.found(comps).value()))
        return vals, ranges


DECLS = {'module': ('wire', 'localparam', 'reg', 'wire value', 'parameter'), 'inst': ('port', 'wire', 'localparam', 'reg', 'parameter', 'remote'), 'for': ('wire', 'localparam', 'remote', 'reg', 'remote parts', 'wire value'),
         'if': ('localparam', 'wire', 'remote parts', 'reg', 'remote reg', 'wire value'), 'block': ('reg',), 'function': ('reg', 'arg')}
NAMES = {'for': 'g', 'if': 'h', 'inst': 'u', 'block': 'b', 'function': 'f'}


def chains(n):
    for k in range(n):
        for mid in itertools.product(('for', 'if', 'inst'), repeat=k):
            for last in (('for',), ('if',), ('inst',), ('block',), ('function',), ('block', 'block')):
                yield mid + last


def designs(th):
    """(name, the top scope)"""
    turn = 0
    for chain in [()] + list(chains(3)):
        m = len(chain) + 1
        if m > 4 and not th and chain[0] == 'if':
            continue
        for have in itertools.product((True, False), repeat=m):
            if not any(have):
                continue
            for same in (False, True):
                ns, seen = [], {}
                for k in chain:
                    n = NAMES[k]
                    seen[n] = seen.get(n, 0) + 1
                    ns.append('n' if same and k in ('for', 'if', 'inst') else n if seen[n] == 1 else n + str(seen[n]))
                if same and sum(k in ('for', 'if', 'inst') for k in chain) < 2:
                    continue
                for v in range(3 if th else 1):
                    turn += 1
                    # every scope gets another kind of declaration in turn
                    def build(i):
                        kind = ('module',) + chain
                        d = DECLS[kind[i]]
                        decl = d[(turn + i * 3 + turn // 7) % len(d)] if have[i] else None
                        return Scope(kind[i], 'm' if i == 0 else ns[i - 1], decl, [build(i + 1)] if i + 1 < m else [])
                    top = build(0)
                    sib = (None, 'for', 'if', 'inst')[(turn + turn // 4) % 4]
                    if sib:
                        # a scope beside them with a name of its own and an x
                        d = DECLS[sib]
                        s = Scope(sib, 'k', d[turn % len(d)])
                        s.parent = top
                        top.children.insert(turn % 2 and len(top.children), s)
                    yield ' '.join('%s%s%s' % (s.kind, ' ' + s.name if s.parent is not None else '', '' if not s.decl else ' (%s)' % s.decl) for s in top.walk()), top


class Flow(sim.Flow):
    pass


def canon(chain):
    """the name of a term as it is written in the language"""
    out, loop = [], None
    for l in list(chain)[1:]:
        if l.scopetype == 'for':
            loop = l.scopeloop
        if l.scopetype in ('module', 'block', 'signal', 'functioncall', 'any'):
            out.append(l.scopename + ('' if loop is None else '[%d]' % loop))
            loop = None
    return '.'.join(out)


def judge(name, d, st):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    from pyverilog.dataflow.walker import VerilogDataflowWalker
    from pyverilog.utils import util
    top = 'm%d' % d.k
    vals, ranges = d.probes()
    st.count('evaluations')
    fail = lambda what: st.fail(name, what, {'text': d.text})

    def tools():
        an = vp.analyze(d.text, top)
        o = VerilogDataflowOptimizer(an.getTerms(), an.getBinddict())
        o.resolveConstant()
        return an.getTerms(), an.getBinddict(), o, VerilogDataflowWalker(top, an.getTerms(), an.getBinddict(), o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
    r = core.attempt(tools)
    if r[0] == 'exc':
        return fail('analysis raised %s: %s' % r[1:])
    terms, binds, opt, walker = r[1]
    by = {}
    for k in terms:
        st.count('transitions')
        if canon(k) in by:
            return fail('two signals are called %s' % canon(k))
        by[canon(k)] = k
        for q in (str(k), [str(l) for l in k]):
            back = core.attempt(lambda: util.toTermname(q))
            if back != ('ok', k) or terms.get(back[1]) is not terms[k]:
                return fail('the name that is printed %s does not select the signal it is of' % q)
    if len({str(k) for k in terms}) != len(terms):
        return fail('two signals are printed alike')
    flow = sim.Flow(terms, binds)
    env = {top + '.t': 0}
    values = sim.Values(flow, env)
    for path, want in vals:
        st.count('transitions')
        st.count('judged')
        st.count('traces')
        if path not in by:
            return fail('there is no signal %s' % path)
        k = by[path]
        w = core.attempt(lambda: walker.walkBind(str(k)))
        if w[0] == 'exc':
            return fail('walkBind(%s) raised %s: %s' % ((str(k),) + w[1:]))
        try:
            got = values[k]
            wid, sg = flow.ev.shape(w[1])
            got2 = flow.ev.ev(w[1], values, max(8, wid), sg)
        except (dfv.Skip, dfv.Bad, KeyError) as ex:
            return fail('%s has no value (%s); the name denotes %d' % (path, ex, want))
        if got != want:
            return fail('%s is %s, the name denotes the signal whose value is %d' % (path, got, want))
        if got2[1] or got2[2] or got2[0] % 256 != want:
            return fail('%s walked back is %s, the name denotes the signal whose value is %d' % (path, got2[:3], want))
    for path, want in ranges:
        st.count('transitions')
        st.count('traces')
        if path not in by:
            return fail('there is no signal %s' % path)
        m = core.attempt(lambda: opt.optimizeConstant(opt.getResolvedTerms()[by[path]].msb) if hasattr(opt, 'optimizeConstant') else opt.getResolvedTerms()[by[path]].msb)
        if m[0] == 'exc' or getattr(m[1], 'value', None) != want:
            return fail('%s has the upper bound %s, the constant that the name denotes is %d' % (path, m[1:], want))
    st.state(d.text.replace('m%d' % d.k, 'm'))
    st.outcome(tuple(vals))


def conform(ds, st):
    """the reference says what iverilog does"""
    with tempfile.TemporaryDirectory() as folder:
        src, out = os.path.join(folder, 'a.v'), os.path.join(folder, 'a.out')
        wants = []
        with open(src, 'w') as f:
            for d in ds:
                f.write(d.text + '\n')
            # (hierarchical names may begin with the name of the top module: the tops are roots, driven through force)
            f.write('module tb;\n initial begin\n')
            for d in ds:
                f.write("  force m%d.t = 8'd1;\n" % d.k)
            f.write('  #1;\n')
            for d in ds:
                f.write("  force m%d.t = 8'd0;\n" % d.k)
            f.write('  #1;\n')
            for d in ds:
                for p, v in d.probes()[0]:
                    f.write('  $display("%%0d", m%d.%s);\n' % (d.k, p))
                    wants.append((d, p, v))
            f.write(' end\nendmodule\n')
        p = subprocess.run(['iverilog', '-g2009', '-s', 'tb'] + [a for d in ds for a in ('-s', 'm%d' % d.k)] + ['-o', out, src], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('iverilog: ' + p.stderr[:1500] + '\n' + '\n'.join(d.text for d in ds if 'm%d' % d.k in p.stderr or len(ds) < 3)[:3000])
        rows = subprocess.run(['vvp', '-n', out], capture_output=True, text=True).stdout.split()
    if len(rows) != len(wants):
        raise RuntimeError('iverilog printed %d of %d lines' % (len(rows), len(wants)))
    for (d, p, v), r in zip(wants, rows):
        st.count('simulated')
        if r != str(v):
            raise RuntimeError('the reference says %s is %d, iverilog %s, in\n%s' % (p, v, r, d.text))


def run(ctx):
    th = ctx.thorough
    n = 16
    all_designs = list(designs(th))

    def work(u, st):
        kind, i = u
        if kind == 'algebra':
            return algebra(i, st)
        mine = [(name, Text(top, k)) for k, (name, top) in enumerate(all_designs) if k % n == i]
        for name, d in mine:
            judge(name, d, st)
        for j in range(0, len(mine), 40):
            conform([d for name, d in mine[j:j + 40]], st)

    with core.quiet():
        vp.parser()
        vp.analyze('module m; endmodule', 'm')
        ctx.explore([('algebra', x) for x in ('labels', 'chains', 'one')] + [('designs', i) for i in range(n)], work)
    ctx.stats.count('nontrivial', ctx.stats.n['judged'])
    ctx.stats.sample(Text(all_designs[len(all_designs) // 2][1], 0).text)
    ctx.rule = ('one state is a pair of names, a name, or a design of nested scopes; transitions are operations on names compared with tuples, and names used in designs: each must have the value of the declaration that the scope rules select, '
                'and each printed name must select its signal')
    ctx.bounds = {
        'names': 'all labels over 2 names, 7 kinds, 3 loop indices in pairs; all chains of up to 2 of 6 labels in pairs, all of up to 3 with every slice and extension',
        'designs': '%d: every nesting of up to 3 scopes (generate loop, generate condition, instance, then also named blocks and functions) below a module x every set of them that declares the name x own or same scope names, with a scope beside them; '
                   'the kinds of declaration take turns; in every scope the plain name, the ranges that use it and every hierarchical name of every declaration are used' % len(all_designs),
    }
    ctx.assumptions = ['the installed simulator implements the scope rules (the reference is compared with it on all designs, every run)']
