"""P19: walking, subsetting and graphing reach exactly the signals that matter."""
import itertools
import re

from pyverilog.dataflow import dataflow as D
from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
from pyverilog.dataflow.subset import VerilogSubset
from pyverilog.dataflow.walker import VerilogDataflowWalker
from pyverilog.utils import util

from mc import core, dfv, sim, vp
from mc.checks.p15_comb import show
from mc.checks.p16_clocked import N, P
from mc.sim import B, CALL, CAT, IX, K, PS, T, U, V, Design, Func, Sig

INS = ('a', 'b')


def terminals(t):
    """the names in a tree"""
    if t is None:
        return set()
    if isinstance(t, D.DFTerminal):
        return {str(t.name)}
    r = set()
    for x in (t.nextnodes if isinstance(t, (D.DFOperator, D.DFConcat, D.DFSyscall)) else
              (t.condnode, t.truenode, t.falsenode) if isinstance(t, D.DFBranch) else
              (t.var, t.msb, t.lsb) if isinstance(t, D.DFPartselect) else
              (t.var, t.ptr) if isinstance(t, D.DFPointer) else
              (t.nextnode,) if isinstance(t, D.DFDelay) else ()):
        r |= terminals(x)
    return r


class Analysed(object):
    def __init__(self, text, top):
        self.top = top
        an = vp.analyze(text, top)
        self.terms, self.binds = an.getTerms(), an.getBinddict()
        self.o = o = VerilogDataflowOptimizer(self.terms, self.binds)
        o.resolveConstant()
        self.args = (top, self.terms, self.binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        self.walker = VerilogDataflowWalker(*self.args)
        self.by = {str(n): n for n in self.terms}
        self.bindof = {str(n): b for n, b in self.binds.items()}
        self.flow = sim.Flow(self.terms, self.binds)

    def subset(self):
        return VerilogSubset(*self.args)

    def graph(self):
        from pyverilog.dataflow.graphgen import VerilogGraphGenerator
        return VerilogGraphGenerator(*(self.args + ('out.png',)))

    # -- direct dependencies, read from the bindings
    def uses(self, name):
        r = set()
        t = self.terms[self.by[name]]
        for x in (t.msb, t.lsb) + tuple(y for p in t.dims or () for y in p):
            r |= terminals(x)
        for b in self.bindof.get(name, ()):
            for x in (b.tree, b.msb, b.lsb, b.ptr):
                r |= terminals(x)
        return r

    def clocks(self, name):
        return {str(b.getClockName()) for b in self.bindof.get(name, ()) if b.isClockEdge()}


class Net(object):
    """A dependency structure: nodes (kind, dependencies, form), and the design that has it.

    kinds: wire, comb, latch, reg, and iwire, icomb, ireg (the same inside an instance), none (not driven)"""

    def __init__(self, nodes):
        self.nodes = nodes          # list of (kind, deps, form); deps are node numbers or input names
        self.names = ['x%d' % i for i in range(len(nodes))]

    def n(self, d):
        return self.names[d] if isinstance(d, int) else d

    def expr(self, ds, form):
        vs = [V(d) for d in ds]
        if not vs:
            return K("1'b1")
        if form % 5 == 1 and len(vs) > 2:
            return T(vs[0], vs[1], self.expr(ds[2:], form))
        if form % 5 == 2 and len(vs) > 1:
            return ('idx2', CAT(*vs))
        if form % 5 == 3:
            e = U('~', vs[0])
        else:
            e = vs[0]
        for v in vs[1:]:
            e = B(e, '|' if form % 5 == 4 else '^', v)
        return e

    def stmts(self, x, ds, form, z):
        if form % 4 == 1 and len(ds) > 1:
            return [('if', V(ds[0]), [z(V(x), self.expr(ds[1:], form // 4))], [z(V(x), B(V(ds[0]), '|', V(ds[-1])))])]
        if form % 4 == 2 and len(ds) > 1:
            return [('case', V(ds[0]), [([K("1'd0")], [z(V(x), self.expr(ds[1:], form // 4))]), (None, [z(V(x), V(ds[0]))])])]
        if form % 4 == 3:
            return [('if', V(ds[0]) if ds else K("1'b1"), [z(V(x), self.expr(ds[1:] or ds, form // 4))], [z(V(x), B(self.expr(ds, form // 4), '|', V(ds[0]) if ds else K("1'b0")))])]
        return [z(V(x), self.expr(ds, form // 4))]

    def latched(self, x, ds, form):
        if not ds:
            return [('if', V('a'), [P(V(x), K("1'b1"))], None)]
        return [('if', V(ds[0]), [P(V(x), self.expr(ds[1:] or ds, form))], None)]

    def build(self, x, kind, ds, form):
        k = kind.lstrip('i')
        if k == 'wire':
            return Sig(x, 'wire'), ('assign', V(x), self.expr(ds, form))
        if k == 'comb':
            return Sig(x, 'reg'), ('always', '*', self.stmts(x, ds, form, P))
        if k == 'latch':
            return Sig(x, 'reg'), ('always', '*', self.latched(x, ds, form))
        if k == 'reg':
            return Sig(x, 'reg'), ('always', '(posedge CLK)', self.stmts(x, ds, form, N))
        return Sig(x, 'wire'), None

    def flat(self):
        """the design without instances"""
        sigs, items = [Sig(i, 'input') for i in ('CLK',) + INS], []
        for x, (kind, ds, form) in zip(self.names, self.nodes):
            s, i = self.build(x, kind, [self.n(d) for d in ds], form)
            sigs.append(s)
            if i:
                items.append(i)
        return Design(sigs, [plain(i) for i in items])

    def text(self):
        """the design, nodes of i-kinds each in a module of their own"""
        sigs, items, mods = [Sig(i, 'input') for i in ('CLK',) + INS], [], []
        for j, (x, (kind, ds, form)) in enumerate(zip(self.names, self.nodes)):
            if kind[0] != 'i':
                s, i = self.build(x, kind, [self.n(d) for d in ds], form)
                sigs.append(s)
                if i:
                    items.append(i)
                continue
            ps = ['p%d' % k for k in range(len(ds))]
            s, i = self.build('q', kind, ps, form)
            mods.append(Design([Sig('CLK', 'input')] + [Sig(p, 'input') for p in ps] + [Sig('q', 'output reg' if s.kind == 'reg' else 'output')], [plain(i)], (), 's%d' % j).text())
            sigs.append(Sig(x, 'wire'))
            conns = ['.CLK(CLK)'] + ['.%s(%s)' % (p, self.n(d)) for p, d in zip(ps, ds)] + ['.q(%s)' % x]
            items.append(('raw', 's%d u%d(%s);' % (j, j, ', '.join(conns if form % 2 else conns[::-1]))))
        return '\n'.join(mods + [Design(sigs, [plain(i) for i in items]).text()])

    # -- the reference
    def deps(self, x):
        """direct dependencies of a node"""
        kind, ds, form = self.nodes[self.names.index(x)]
        r = [self.n(d) for d in ds]
        if kind.lstrip('i') == 'latch':
            r = (r or ['a']) + [x]
        return r

    def kind(self, x):
        return self.nodes[self.names.index(x)][0].lstrip('i') if x in self.names else 'input'

    def ends(self, x, register):
        """the signals at which walking back from x ends"""
        if self.kind(x) == 'reg' and not register:
            return {x}
        r = set()

        def go(n, path):
            for d in self.deps(n):
                k = self.kind(d)
                if k in ('input', 'reg', 'none') or d in path:
                    r.add(d)
                else:
                    go(d, path | {d})
        if self.kind(x) == 'none':
            return {x}
        go(x, frozenset([x] if self.kind(x) == 'latch' else []))
        return r

    def reach(self, xs):
        r, todo = set(), list(xs)
        while todo:
            x = todo.pop()
            if x not in r:
                r.add(x)
                todo.extend(self.deps(x) if x in self.names else ())
        return r

    def between(self, x):
        """the signals between x and where walking back from it ends (x too when it can be walked through)"""
        r, todo = set(), [x]
        while todo:
            for d in self.deps(todo.pop()):
                if d in self.names and self.kind(d) not in ('reg', 'none') and d not in r:
                    r.add(d)
                    todo.append(d)
        return r

    def loops(self):
        """the combinational loops: sets of signals that depend on each other"""
        free = [x for x in self.names if self.kind(x) not in ('reg', 'none')]
        b = {x: self.between(x) for x in free}
        return {frozenset(y for y in b[x] if x in b[y]) for x in free if x in b[x]}

    def cyclic(self):
        return bool(self.loops())

    def alias(self, name):
        """the node a signal of an instance stands for"""
        p = name.split('.')
        if len(p) == 3 and p[1][0] == 'u' and p[1][1:].isdigit():
            kind, ds, form = self.nodes[int(p[1][1:])]
            if p[2] == 'CLK':
                return 'CLK'
            p[2] = re.sub('^_rn[0-9]+_', '', p[2])
            if p[2][0] == 'q':
                return self.names[int(p[1][1:])]
            if p[2][0] == 'p':
                return self.n(ds[int(p[2][1:])])
        return re.sub('^_rn[0-9]+_', '', p[-1])

    def targets(self):
        """(flat name, node, whether it is the register itself and not a wire that shows it)"""
        for j, (x, (kind, ds, form)) in enumerate(zip(self.names, self.nodes)):
            yield 'm.' + x, x, kind == 'reg'
            if kind[0] == 'i':
                yield 'm.u%d.q' % j, x, kind == 'ireg'


def plain(x):
    """('idx2', cat): bit 0 of a concatenation, written as an and with a constant"""
    if isinstance(x, tuple):
        if x and x[0] == 'idx2':
            # every part matters: the xor of all bits
            return U('^', plain(x[1]))
        return tuple(plain(y) for y in x)
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


def judge(net, key, st, graph=True, values=True):
    text = net.text()
    st.count('evaluations')
    q = core.attempt(lambda: Analysed(text, 'm'))
    if q[0] == 'exc':
        st.fail(key, 'analysis raised %s: %s' % (q[1], q[2]), {'text': text})
        return False
    an = q[1]
    trees = {}
    for name, x, register in net.targets():
        r = core.attempt(lambda: an.walker.walkBind(name))
        if r[0] == 'exc':
            st.fail(key, 'walkBind of %s raised %s: %s' % (name, r[1], r[2]), {'text': text})
            return False
        trees[name] = r[1]
        got = {net.alias(n) for n in terminals(r[1])}
        want = net.ends(x, register)
        st.count('walks')
        # in a loop, walking ends somewhere
        loops = [s for s in net.loops() if s & (net.between(x) | {x})] if net.kind(x) != 'none' and (register or net.kind(x) != 'reg') else []
        looping = {y for s in loops for y in s}
        if got - looping != want - looping or any(not s & got for s in loops):
            st.fail(key, 'walking back from %s ends at %s, it must end at %s' % (name, sorted(got), sorted(want)), {'text': text, 'tree': r[1].tostr()})
            return False
    if not judge_subsets(net, an, key, st, text):
        return False
    if graph and not judge_graph(an, ['m.' + x for x in net.names if net.kind(x) != 'none'], key, st, text):
        return False
    if values and not net.cyclic() and not judge_values(net, an, trees, key, st, text):
        return False
    st.state(key)
    st.outcome(tuple(t.tostr() for t in trees.values()))
    return True


def judge_subsets(net, an, key, st, text, targets=None, clock='CLK'):
    names = net.names
    for k in range(1, len(names) + 1):
        for ts in itertools.combinations(names, k):
            st.count('subsets')
            sub = an.subset()
            sub.set_clock_info(clock, 'posedge')
            r = core.attempt(lambda: (sub.getBindSourceSubset(['m.' + t for t in ts]), sub.getSubset(['m.' + t for t in ts])))
            if r[0] == 'exc':
                st.fail(key, 'the subset of %s raised %s: %s' % (ts, r[1], r[2]), {'text': text})
                return False
            (binds, sources), parts = r[1]
            # closure over the bindings
            want, todo = set(), ['m.' + t for t in ts]
            while todo:
                n = todo.pop()
                if n in want:
                    continue
                want.add(n)
                todo.extend(an.uses(n))
                todo.extend(c for c in an.clocks(n) if c != 'm.' + clock)
            got = {str(n) for n in sources} | {'m.' + t for t in ts}
            if got != want:
                st.fail(key, 'the subset of %s has the signals %s, it must have %s' % (ts, sorted(got), sorted(want)), {'text': text})
                return False
            mine = {net.alias(n) for n in got if '_rn' not in n}
            ref = net.reach(ts)
            clk = {'CLK'} if 'CLK' in mine and (clock != 'CLK' or any(net.nodes[names.index(x)][0] == 'ireg' for x in ref & set(names))) else set()
            if mine != ref | clk:
                st.fail(key, 'the subset of %s has the signals %s, the text depends on %s' % (ts, sorted(mine), sorted(ref)), {'text': text})
                return False
            wb = sorted((n, str(b.tostr())) for n in want for b in an.bindof.get(n, ()))
            gb = sorted((str(n), str(b.tostr())) for n, bs in binds.items() for b in bs)
            if wb != gb:
                st.fail(key, 'the subset of %s has the bindings %s, it must have %s' % (ts, [n for n, b in gb], [n for n, b in wb]), {'text': text})
                return False
            terms, parameter, assign, clocked, comb = parts
            if {str(n) for n in terms} | {str(n) for n in parameter} | {'m.' + t for t in ts if net.kind(t) == 'none'} != want:
                st.fail(key, 'the parts of the subset of %s have the terms %s, they must have %s' % (ts, sorted(str(n) for n in terms), sorted(want)), {'text': text})
                return False
            gp = sorted((str(n), k2, str(b.tostr())) for k2, p in (('assign', assign), ('clocked', clocked), ('comb', comb)) for n, bs in p.items() for b in bs)
            wp = sorted((n, 'clocked' if b.isClockEdge() else 'comb' if 'Reg' in an.terms[an.by[n]].termtype else 'assign', str(b.tostr())) for n in want for b in an.bindof.get(n, ())
                        if 'Parameter' not in an.terms[an.by[n]].termtype and 'Localparam' not in an.terms[an.by[n]].termtype)
            if gp != wp:
                st.fail(key, 'the parts of the subset of %s are %s, they must be %s' % (ts, [p[:2] for p in gp], [p[:2] for p in wp]), {'text': text})
                return False
    return True


def canon(t):
    """a tree as its graph shows it: (label, children), terminals by their label"""
    if isinstance(t, D.DFTerminal):
        return ('term', t.tolabel())
    if isinstance(t, D.DFBranch):
        cs = [('COND', t.condnode), ('TRUE', t.truenode), ('FALSE', t.falsenode)]
    elif isinstance(t, D.DFPartselect):
        cs = [('VAR', t.var), ('MSB', t.msb), ('LSB', t.lsb)]
    elif isinstance(t, D.DFPointer):
        cs = [('VAR', t.var), ('PTR', t.ptr)]
    elif isinstance(t, (D.DFOperator, D.DFConcat)):
        cs = [(None, n) for n in t.nextnodes]
    else:
        cs = []
    return (t.tolabel(), tuple(sorted(set(merge((k, canon(c)) for k, c in cs if c is not None)), key=repr)))


def merge(cs):
    """two edges to the same terminal are one, with the label of the last"""
    r = {}
    out = []
    for k, c in cs:
        if c[0] == 'term':
            r[c] = None if c in r and r[c] != k else k
        else:
            out.append((k, c))
    return out + [(k, c) for c, k in r.items()]


def graph_canon(g, node, multi):
    """the same, read back from the graph"""
    label = node.attr['label']
    if '_graphrename_' not in str(node):
        return ('term', str(node))
    cs = []
    for e in g.out_edges(node):
        cs.append((e.attr['label'] or None, graph_canon(g, e[1], multi)))
    return (label, tuple(sorted(set(cs), key=repr)))


def unlabel(c):
    """edges to terminals without their labels (several may have become one)"""
    if c[0] == 'term':
        return c
    return (c[0], tuple(sorted({(None if x[0] == 'term' else k, unlabel(x)) for k, x in c[1]}, key=repr)))


def judge_graph(an, names, key, st, text):
    from pyverilog.dataflow import reorder, replace
    from pyverilog.dataflow.optimizer import VerilogOptimizer
    for name in names:
        for kw in ({'walk': False}, {'walk': True, 'step': 0}, {'walk': True, 'step': 1}, {'walk': True, 'step': 1, 'identical': True}):
            st.count('graphs')
            gg = an.graph()
            r = core.attempt(lambda: gg.generate(name, **kw))
            if r[0] == 'exc':
                st.fail(key, 'the graph of %s raised %s: %s' % (name, r[1], r[2]), {'text': text})
                return False
            termname = an.by[name]
            tree = an.walker.getTree(termname)
            if kw['walk']:
                tree = an.walker.walkTree(tree, visited=set(), step=kw['step'])
            tree = replace.replaceUndefined(VerilogOptimizer(an.terms, an.args[5]).optimize(tree), termname)
            roots = [n for n in gg.graph.nodes() if not gg.graph.in_edges(n)]
            edges = gg.graph.edges()
            if kw.get('identical'):
                want_n = count(tree)
                ok = len(roots) == 1 and len(edges) == want_n and len(gg.graph.nodes()) == want_n + 1
                if not ok:
                    st.fail(key, 'the graph of %s has %d edges, its tree has %d nodes' % (name, len(edges), want_n), {'text': text, 'tree': tree.tostr()})
                    return False
                continue
            root = [n for n in gg.graph.nodes() if n.attr['label'] == name and '_graphrename_0' in str(n)]
            if len(root) != 1:
                st.fail(key, 'the graph of %s has no root' % name, {'text': text})
                return False
            got = unlabel(graph_canon(gg.graph, root[0], {}))
            want = unlabel((name, ((None, canon(tree)),)))
            if got != want:
                st.fail(key, 'the graph of %s (%s) is %s, the dataflow is %s' % (name, kw, got, want), {'text': text, 'tree': tree.tostr()})
                return False
            reached = {root[0]}
            todo = [root[0]]
            while todo:
                for e in gg.graph.out_edges(todo.pop()):
                    if e[1] not in reached:
                        reached.add(e[1])
                        todo.append(e[1])
            if len(reached) != len(gg.graph.nodes()):
                st.fail(key, 'the graph of %s has nodes that belong to nothing' % name, {'text': text})
                return False
    return True


def count(t):
    if t is None:
        return 0
    if isinstance(t, D.DFBranch):
        cs = (t.condnode, t.truenode, t.falsenode)
    elif isinstance(t, D.DFPartselect):
        cs = (t.var, t.msb, t.lsb)
    elif isinstance(t, D.DFPointer):
        cs = (t.var, t.ptr)
    elif isinstance(t, (D.DFOperator, D.DFConcat)):
        cs = t.nextnodes
    else:
        cs = ()
    return 1 + sum(count(c) for c in cs)


def judge_values(net, an, trees, key, st, text):
    """walked trees have the value of the signal, and with one step the value one clock later"""
    m = sim.Machine(net.flat())
    regs = [x for x in net.names if net.kind(x) == 'reg']
    later = {}
    for name, x, register in net.targets():
        r = core.attempt(lambda: an.walker.walkBind(name, step=1))
        if r[0] == 'exc':
            st.fail(key, 'walkBind of %s with a step raised %s: %s' % (x, r[1], r[2]), {'text': text})
            return False
        later[name] = r[1]
    for vs in itertools.product((0, 1), repeat=len(INS) + len(regs)):
        st.count('transitions')
        given = dict(zip(list(INS) + regs, vs))
        given['CLK'] = 1
        try:
            now = m.settle(given)
            nxt = m.step(given) if regs else {}
            if any(v[1] or v[2] for v in nxt.values()):
                continue
            g2 = dict(given)
            g2.update((x, v[0]) for x, v in nxt.items())
            then = m.settle(g2)
            nxt2 = m.step(g2) if regs else {}
        except dfv.Skip:
            # a signal that is not driven is a condition
            st.count('skipped')
            continue
        env = {}
        for n in an.by:
            x = net.alias(n)
            if x == 'CLK':
                env[n] = 1
            elif x in now and '_rn' not in n:
                v = now[x]
                env[n] = (v[0], v[1] | v[2]) if v[1] | v[2] else v[0]
        vals = sim.Values(an.flow, env)
        for name, x, register in net.targets():
            if net.kind(x) == 'reg' and not register:
                refs = now[x], then[x]
            else:
                refs = nxt.get(x, now[x]), nxt2.get(x, then[x])
            for how, tree, ref in (('walked', trees[name], refs[0]), ('walked with a step', later[name], refs[1])):
                if ref[1] or ref[2]:
                    continue
                st.count('judged')
                st.count('traces')
                try:
                    got = an.flow.ev.value(tree, vals)
                    got = (got[0] & 1, (got[1] | got[2]) & 1)
                except (dfv.Skip, dfv.Bad) as ex:
                    got = ex
                if got != (ref[0], 0):
                    st.fail(key, 'with %s, %s is %d and the %s tree gives %s' % ({k: v for k, v in given.items() if k != 'CLK'}, name, ref[0], how, got), {'text': text, 'tree': tree.tostr()})
                    return False
    return True


# -- families -----------------------------------------------------------------------------
def subsets(xs):
    for k in range(len(xs) + 1):
        for s in itertools.combinations(xs, k):
            yield s


def graphs(th):
    """every graph of two nodes and two inputs of every kind; every graph of three nodes (one input) of the basic kinds"""
    kinds = ['wire', 'comb', 'latch', 'reg', 'iwire', 'icomb', 'ireg', 'none']
    j = 0
    for k0, k1 in itertools.product(kinds, repeat=2):
        for d0 in subsets((0, 1, 'a', 'b')) if k0 != 'none' else [()]:
            for d1 in subsets((0, 1, 'a', 'b')) if k1 != 'none' else [()]:
                j += 1
                if th or j % 9 == 0:
                    yield 'two', [(k0, d0, j), (k1, d1, j // 4)]
    kinds = ['wire', 'comb', 'reg'] if not th else ['wire', 'comb', 'reg', 'ireg']
    for ks in itertools.product(kinds, repeat=3):
        for ds in itertools.product(list(subsets((0, 1, 2))), repeat=3):
            j += 1
            if j % (2 if th else 29) == 0:
                yield 'three', [(k, d + ('a',) if (j + i) % 3 else d, j + 5 * i) for i, (k, d) in enumerate(zip(ks, ds))]
    # acyclic combinational structures between inputs and registers
    for ks in itertools.product(['wire', 'comb', 'iwire', 'icomb'], repeat=3):
        for ds in itertools.product(list(subsets((0, 1, 2, 3, 'a'))), repeat=2):
            j += 1
            if j % (6 if th else 59) == 0:
                yield 'layers', [(ks[0], (3, 'b') if j % 2 else ('a',), j), (ks[1], tuple(x for x in ds[0] if x not in (1, 2)), j + 1), (ks[2], tuple(x for x in ds[1] if x != 2), j + 2), ('reg', (2, 1), j + 3)]


def fixed(th):
    """other carriers of dependency: (key, text, {signal: ends}, {signal: reach})"""
    def M(body, ins='input CLK, input a, input b, input [1:0] v'):
        return 'module m(%s); %s endmodule' % (ins, body)
    yield 'index', M('wire [3:0] w; wire y; assign w = {a, b, v}; assign y = w[v];'), {'y': 'a b v', 'w': 'a b v'}, {'y': 'y w a b v'}
    yield 'part', M('wire [3:0] w; wire [1:0] y; assign w = {a, b, v}; assign y = w[2:1];'), {'w': 'a b v'}, {'y': 'y w a b v'}
    yield 'memory', M('reg q [0:3]; reg y; always @(posedge CLK) begin q[v] <= a; y <= q[{a, b}]; end'), {'y': 'q a b'}, {'y': 'y q v a b'}
    yield 'memory words', M('reg q [0:1]; wire y; always @(posedge CLK) begin q[0] <= a; q[1] <= b; end assign y = q[v[0]];'), {'y': 'q v'}, {'y': 'y q a b v'}
    yield 'function', M('function f; input p; input q; f = p & ~q; endfunction wire w, y; assign w = a; assign y = f(w, v[0]);'), {'y': 'a v'}, {'y': 'y w a v'}
    yield 'function if', M('function f; input p; input q; if (p) f = q; else f = 0; endfunction wire w, y; assign w = a; assign y = f(w, b);'), {'y': 'a b'}, {'y': 'y w a b'}
    yield 'parameter', M('parameter W = 2; localparam L = W + 1; wire [W-1:0] y; assign y = v + L;'), {'y': 'v'}, {'y': 'y v L W'}
    yield 'signed', M('wire y; assign y = $signed(v) > $signed({a, b});'), {'y': 'v a b'}, {'y': 'y v a b'}
    yield 'high impedance', M('wire y; assign y = a ? b : 1\'bz;'), {}, {'y': 'y a b'}
    yield 'undefined', M("wire y; assign y = a ? b : 1'bx;"), {}, {'y': 'y a b'}
    yield 'string', M('wire [7:0] y; assign y = a ? "x" : v;'), {'y': 'a v'}, {'y': 'y a v'}
    yield 'integer', M('integer i; reg [3:0] y; always @* begin for (i = 0; i < 2; i = i + 1) y[i] = v[i]; y[3:2] = {a, b}; end'), {'y': 'v a b'}, {'y': 'y v a b'}
    yield 'generate', M('wire [1:0] y; genvar g; generate for (g = 0; g < 2; g = g + 1) begin: blk wire t; assign t = v[g] ^ a; assign y[g] = t; end endgenerate'), {'y': 'v a'}, {'y': 'y v a md_generate0.ge_for0[0].blk.t md_generate0.ge_for0[1].blk.t'}
    yield 'two levels', 'module s(input p, output q); assign q = ~p; endmodule module t(input p, output q); wire r; s u(.p(p), .q(r)); s w(.p(r), .q(q)); endmodule ' + M('wire y; t k(.p(a), .q(y));'), {'y': 'a'}, {'y': 'y a k.p k.q k.r k.u.p k.u.q k.w.p k.w.q'}
    yield 'other clock', M('reg y; always @(posedge clk2 or negedge rst) if (!rst) y <= 0; else y <= a;', 'input clk2, input rst, input a'), {'y': 'rst a'}, {'y': 'y a rst clk2'}
    yield 'gated clock', M('wire clk2; assign clk2 = CLK & b; reg y; always @(posedge clk2) y <= a;'), {'y': 'a'}, {'y': 'y a b clk2 CLK'}
    yield 'not connected', 'module s(input p, output q); assign q = ~p; endmodule ' + M('wire y; s u(.q(y));'), {'y': 'u.p'}, {'y': 'y u.p u.q'}
    yield 'inout', M('wire t; assign io = a ? t : 1\'bz; assign t = io & b;', 'input a, input b, inout io'), {}, {'io': 'io a t b', 't': 'io a t b'}


def longs(th):
    """chains and fans past the small bound"""
    M = lambda body: 'module m(input CLK, input a, input b, input [1:0] v); %s endmodule' % body
    for n in (9, 10, 12, 17, 33):
        R = range(n)
        names = ' '.join('x%d' % k for k in R)
        decl = lambda kind: ' '.join('%s x%d;' % (kind, k) for k in R)
        asg = ['assign x%d = x%d ^ %s;' % (k, k - 1, 'b' if k == n // 2 else '1') for k in R[1:]]
        yield 'wires %d' % n, M(decl('wire') + ' assign x0 = a; ' + ' '.join(asg)), {'x%d' % (n - 1): 'a b', 'x1': 'a' if n // 2 > 1 else 'a b'}, {'x%d' % (n - 1): names + ' a b', 'x2': 'x2 x1 x0 a'}
        yield 'wires backwards %d' % n, M(decl('wire') + ' '.join(asg[::-1]) + ' assign x0 = a;'), {'x%d' % (n - 1): 'a b'}, {'x%d' % (n - 1): names + ' a b'}
        yield 'registers %d' % n, M(decl('reg') + ' always @(posedge CLK) begin x0 <= a; ' + ' '.join('x%d <= x%d;' % (k, k - 1) for k in R[1:]) + ' end'), {'x%d' % (n - 1): 'x%d' % (n - 2), 'x0': 'a'}, {'x%d' % (n - 1): names + ' a', 'x10' if n > 10 else 'x3': ' '.join('x%d' % k for k in range(11 if n > 10 else 4)) + ' a'}
        yield 'ring %d' % n, M(decl('reg') + ' always @(posedge CLK) begin x0 <= x%d; ' % (n - 1) + ' '.join('x%d <= x%d;' % (k, k - 1) for k in R[1:]) + ' end'), {'x1': 'x0'}, {'x%d' % (n - 1): names, 'x2': names}
        yield 'fan %d' % n, M(decl('reg') + ' wire y; always @(posedge CLK) begin ' + ' '.join('x%d <= v[%d];' % (k, k % 2) for k in R) + ' end assign y = %s;' % ' & '.join('x%d' % k for k in R)), {'y': names}, {'y': 'y v ' + names}
        yield 'concat fan %d' % n, M(decl('wire') + ' wire [%d:0] y; ' % (n - 1) + ' '.join('assign x%d = %s;' % (k, 'ab'[k % 2]) for k in R) + ' assign y = {%s};' % ', '.join('x%d' % k for k in R)), {'y': 'a b'}, {'y': 'y a b ' + names}
        yield 'conditions %d' % n, M(decl('wire') + ' wire y; ' + ' '.join('assign x%d = %s;' % (k, ('a', 'b', 'v[0]')[k % 3]) for k in R) + ' assign y = %s 1;' % ' '.join('x%d ? 0 :' % k for k in R)), {'y': 'a b v'}, {'y': 'y a b v ' + names}
        kids = ' '.join('s u%d(.p(%s), .q(x%d));' % (k, 'x%d' % (k - 1) if k else 'a', k) for k in R)
        reach = names + ' a ' + ' '.join('u%d.p u%d.q' % (k, k) for k in R)
        yield 'instances %d' % n, 'module s(input p, output q); assign q = ~p; endmodule ' + M(decl('wire') + kids), {'x%d' % (n - 1): 'a'}, {'x%d' % (n - 1): reach}


def judge_fixed(c, st):
    name, text, ends, reach = c
    key = 'fixed: %s' % name
    st.count('evaluations')
    q = core.attempt(lambda: Analysed(text, 'm'))
    if q[0] == 'exc':
        return st.fail(key, 'analysis raised %s: %s' % (q[1], q[2]), {'text': text})
    an = q[1]
    short = lambda ns: sorted(n[2:] for n in ns if '_rn' not in n and an.terms[an.by[n]].termtype != {'Function'})
    for x in sorted(set(ends) | set(reach)):
        r = core.attempt(lambda: an.walker.walkBind('m.' + x))
        if r[0] == 'exc':
            return st.fail(key, 'walkBind of %s raised %s: %s' % (x, r[1], r[2]), {'text': text})
        st.count('walks')
        if x in ends and {n[2:] for n in terminals(r[1])} != set(ends[x].split()):
            return st.fail(key, 'walking back from %s ends at %s, it must end at %s' % (x, sorted(terminals(r[1])), ends[x]), {'text': text, 'tree': r[1].tostr()})
    for x, want in sorted(reach.items()):
        st.count('subsets')
        sub = an.subset()
        r = core.attempt(lambda: (sub.getBindSourceSubset(['m.' + x]), sub.getSubset(['m.' + x])))
        if r[0] == 'exc':
            return st.fail(key, 'the subset of %s raised %s: %s' % (x, r[1], r[2]), {'text': text})
        (binds, sources), parts = r[1]
        got = {n for n in {str(n) for n in sources} | {'m.' + x} if '_rn' not in n and not inner(n)}
        if {n[2:] for n in got} != set(want.split()):
            return st.fail(key, 'the subset of %s has %s, it must have %s' % (x, sorted(got), want), {'text': text})
        need = {n for n in got if an.bindof.get(n)}
        have = {str(n) for n in binds if '_rn' not in str(n) and not inner(str(n))}
        if need != have:
            return st.fail(key, 'the subset of %s has bindings of %s, it must have those of %s' % (x, sorted(have), sorted(need)), {'text': text})
        t, p = parts[:2]
        if {str(n) for n in t} | {str(n) for n in p} != {str(n) for n in sources} | {'m.' + x}:
            return st.fail(key, 'the parts of the subset of %s have %s, the subset has %s' % (x, sorted(map(str, list(t) + list(p))), sorted(got)), {'text': text})
    if not judge_graph(an, ['m.' + x for x in ends], key, st, text):
        return
    st.state(key)


def inner(n):
    """names the analyser makes for a function call"""
    return '_rn' in n or '_functioncall' in n or n.split('.')[1] == 'f' or n.startswith('m.f')


def run(ctx):
    th = ctx.thorough
    n = 16 if th else 8

    def work(u, st):
        f, i = u
        if f == 'fixed':
            for c in itertools.chain(fixed(th), longs(th)):
                judge_fixed(c, st)
            return
        for j, (k, nodes) in enumerate(graphs(th)):
            if j % n == i:
                judge(Net(nodes), '%s: %s' % (k, '; '.join('x%d %s(%s) %d' % (p, a, ' '.join(str(x) for x in b), c % 20) for p, (a, b, c) in enumerate(nodes))), st, graph=j // n % 4 == 0)

    with core.quiet():
        ctx.explore([('graphs', i) for i in range(n)] + [('fixed', 0)], work)
    ctx.stats.count('nontrivial', ctx.stats.n['walks'])
    ctx.stats.sample(Net([('wire', (1, 'a'), 1), ('ireg', (0, 'b'), 2)]).text())
    ctx.rule = ('one state is one dependency structure, written as a design and analysed by the real code; for it every signal is walked back, every set of signals is subset and graphs are drawn, '
                'and compared with reachability computed from the structure; transitions are valuations under which walked trees are evaluated; distinct_observed_outcomes are different sets of walked trees')
    ctx.bounds = {
        'two': 'every graph over 2 signals and 2 inputs (self loops and cycles too), every pair of 8 kinds of signal (wire, combinational, latch, register, each of them in an instance, not driven)' + ('' if th else '; every ninth'),
        'three': 'every graph over 3 signals of %d kinds' % (4 if th else 3) + ('; every second' if th else '; every 29th'),
        'layers': 'combinational layers between inputs and a register' + ('; every sixth' if th else '; every 59th'),
        'fixed': 'indices, parts, memories, functions, parameters, generate blocks, levels of hierarchy, other clocks',
        'longs': 'chains of 9 to 33 wires, registers, instances; rings; fans of as many',
        'graphs': 'drawn for every fourth structure: not walked, walked, walked through one register, identical nodes apart',
    }
    ctx.assumptions = ['the bindings of the analyser are the dependencies of the text (P15, P16, P17)']
