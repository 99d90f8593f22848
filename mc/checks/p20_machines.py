"""P20: the state machines found have exactly the transitions and loops of the design."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile

from mc import algebra, core, dfv, fsm, sim
from mc.checks.p16_clocked import N, P
from mc.sim import B, K, T, U, V, Design, Func, Sig

ENVS = [dict(a=a, b=b, v=v) for a in (0, 1) for b in (0, 1) for v in range(4)]


# -- machines: for every state a decision --------------------------------------------------
def decisions(n, th):
    """what a state does next: ('hold',), ('to', d), ('if', guard, d), ('else', guard, d, e), ('elif', guard, d, guard, e)"""
    yield ('hold',)
    for d in range(n):
        yield ('to', d)
    for g in ('a', 'v2') if not th else ('a', 'v2', 'nb', 'vgt'):
        for d in range(n):
            yield ('if', g, d)
    for d, e in itertools.product(range(n), repeat=2):
        yield ('else', 'a', d, e)
        if th:
            yield ('elif', 'a', d, 'nb', e)


GUARDS = {'a': (V('a'), lambda e: e['a']), 'nb': (U('!', V('b')), lambda e: not e['b']), 'v2': (B(V('v'), '==', K("2'd2")), lambda e: e['v'] == 2), 'vgt': (B(V('v'), '>', K("2'd1")), lambda e: e['v'] > 1),
          'go': (V('go'), lambda e: e['a'] and not e['b'])}


def decide(d, env):
    """the next state, None for no change"""
    if d[0] == 'hold':
        return None
    if d[0] == 'to':
        return d[1]
    if GUARDS[d[1]][1](env):
        return d[2]
    if d[0] == 'else':
        return d[3]
    if d[0] == 'elif' and GUARDS[d[3]][1](env):
        return d[4]
    return None


def stmts(d, z, code):
    """the decision as statements; z(state): the statement that goes there"""
    if d[0] == 'hold':
        return []
    if d[0] == 'to':
        return [z(code(d[1]))]
    g = GUARDS[d[1]][0]
    if d[0] == 'if':
        return [('if', g, [z(code(d[2]))], None)]
    if d[0] == 'else':
        return [('if', g, [z(code(d[2]))], [z(code(d[3]))])]
    return [('if', g, [z(code(d[2]))], [('if', GUARDS[d[3]][0], [z(code(d[4]))], None)])]


class Style(object):
    """A way to write a machine: self.machine(i, decisions) -> signals, items; self.reset: name and level"""
    width = 2
    clear = None            # guard under which every state goes to 0
    default = None          # decision of the values without a state
    reset = ('RST', 1, '(posedge CLK)')
    name = ''

    def code(self, i, s):
        return K("%d'd%d" % (self.width, self.value(s)))

    def value(self, s):
        return s

    def wrap(self, i, body):
        """the clocked process around the transitions"""
        s = 'state%d' % i
        n, level, sens = self.reset
        body = [('if', GUARDS[self.clear][0], [N(V(s), self.code(i, 0))], body)] if self.clear else body
        return ('always', sens, [('if', V(n) if level else U('!', V(n)), [N(V(s), self.code(i, 0))], body)])

    def machine(self, i, ds):
        s = 'state%d' % i
        z = lambda c: N(V(s), c)
        arms = [([self.code(i, j)], stmts(d, z, lambda t: self.code(i, t))) for j, d in enumerate(ds)]
        if self.default:
            arms.append((None, stmts(self.default, z, lambda t: self.code(i, t))))
        return [Sig(s, 'reg', self.width - 1, 0)], [self.wrap(i, [('case', V(s), arms)])]

    def find(self, i):
        return 'm.state%d' % i


class Case(Style):
    name = 'case'


class CaseDefault(Style):
    name = 'case with default'
    default = ('to', 0)


class CaseLast(Style):
    """the last state is the default"""
    name = 'last state is the default'

    def machine(self, i, ds):
        sigs, items = Style.machine(self, i, ds)
        case = items[0][2][0][3][0]
        case[2][-1] = (None, case[2][-1][1])
        return sigs, items


class Clear(Style):
    name = 'cleared from every state'
    clear = 'nb'


class ClearTogether(Clear):
    """the reset is one part of the condition of clearing"""
    name = 'reset or clear'

    def wrap(self, i, body):
        return ('always', '(posedge CLK)', [('if', B(V('RST'), '||', GUARDS[self.clear][0]), [N(V('state%d' % i), self.code(i, 0))], body)])


class IfChain(Style):
    name = 'if chain'
    reset = ('RST_X', 0, '(posedge CLK or negedge RST_X)')

    def machine(self, i, ds):
        s = 'state%d' % i
        z = lambda c: N(V(s), c)
        body = []
        for j, d in reversed(list(enumerate(ds))):
            body = [('if', B(V(s), '==', self.code(i, j)), stmts(d, z, lambda t: self.code(i, t)), body or None)]
        return [Sig(s, 'reg', 1, 0)], [self.wrap(i, body)]


class Ifs(IfChain):
    """separate ifs; the order of tests is turned around and the constant comes first"""
    name = 'separate ifs'

    def machine(self, i, ds):
        s = 'state%d' % i
        z = lambda c: N(V(s), c)
        body = [('if', B(self.code(i, j), '==', V(s)), stmts(d, z, lambda t: self.code(i, t)), None) for j, d in enumerate(ds)]
        return [Sig(s, 'reg', 1, 0)], [self.wrap(i, body)]


class Ranges(IfChain):
    """states told apart by <"""
    name = 'ranges'

    def machine(self, i, ds):
        s = 'state%d' % i
        z = lambda c: N(V(s), c)
        body = None
        for j, d in reversed(list(enumerate(ds))):
            body = [('if', B(V(s), '<', K("2'd%d" % (j + 1))), stmts(d, z, lambda t: self.code(i, t)), body)]
        return [Sig(s, 'reg', 1, 0)], [self.wrap(i, body)]


class Local(Case):
    name = 'localparams'
    values = (2, 0, 3)

    def value(self, s):
        return self.values[s]

    def code(self, i, s):
        return V('S%d_%d' % (i, s))

    def machine(self, i, ds):
        sigs, items = Case.machine(self, i, ds)
        return sigs, [('raw', 'localparam %s;' % ', '.join("S%d_%d = 2'd%d" % (i, j, self.value(j)) for j in range(len(ds))))] + items


class OneHot(Case):
    name = 'one hot'
    width = 3

    def value(self, s):
        return 1 << s


class TwoProcess(Case):
    name = 'two processes'

    def machine(self, i, ds):
        s, x = 'state%d' % i, 'nxt%d' % i
        z = lambda c: P(V(x), c)
        arms = [([self.code(i, j)], stmts(d, z, lambda t: self.code(i, t))) for j, d in enumerate(ds)]
        return [Sig(s, 'reg', 1, 0), Sig(x, 'reg', 1, 0)], [('always', '*', [P(V(x), V(s)), ('case', V(s), arms)]), self.wrap(i, [N(V(s), V(x))])]


class Wire(Case):
    """the next state is computed by a wire"""
    name = 'wire'

    def machine(self, i, ds):
        s, x = 'state%d' % i, 'nxt%d' % i

        def e(d):
            if d[0] == 'hold':
                return V(s)
            if d[0] == 'to':
                return self.code(i, d[1])
            return T(GUARDS[d[1]][0], self.code(i, d[2]), V(s) if d[0] == 'if' else self.code(i, d[3]) if d[0] == 'else' else T(GUARDS[d[3]][0], self.code(i, d[4]), V(s)))
        r = V(s)
        for j, d in reversed(list(enumerate(ds))):
            r = T(B(V(s), '==', self.code(i, j)), e(d), r)
        return [Sig(s, 'reg', 1, 0), Sig(x, 'wire', 1, 0)], [('assign', V(x), r), self.wrap(i, [N(V(s), V(x))])]


class Go(Case):
    """guards are wires"""
    name = 'guard wire'

    def machine(self, i, ds):
        ds = [tuple('go' if x == 'a' else x for x in d) for d in ds]
        return Case.machine(self, i, ds)


STYLES = [Case(), CaseDefault(), CaseLast(), Clear(), ClearTogether(), IfChain(), Ifs(), Ranges(), Local(), OneHot(), TwoProcess(), Wire(), Go()]


def reference(style, ds):
    """[(value, env, next value or None)]"""
    for s in range(1 << style.width):
        states = [j for j in range(len(ds)) if style.value(j) == s]
        if isinstance(style, CaseLast) and not states:
            states = [len(ds) - 1]
        d = ds[states[0]] if states else style.default or ('hold',)
        if isinstance(style, Go):
            d = tuple('go' if x == 'a' else x for x in d)
        for env in ENVS:
            n = 0 if style.clear and GUARDS[style.clear][1](env) else decide(d, env)
            yield s, env, None if n is None else style.value(n)


def design(cases):
    sigs = [Sig('CLK', 'input'), Sig('RST', 'input'), Sig('RST_X', 'input'), Sig('a', 'input'), Sig('b', 'input'), Sig('v', 'input', 1, 0), Sig('go', 'wire')]
    items = [('assign', V('go'), B(V('a'), '&', U('~', V('b'))))]
    for i, (style, ds) in enumerate(cases):
        s, t = style.machine(i, ds)
        sigs += s
        items += t
    return Design(sigs, items)


def short(d):
    return ' '.join(str(x) for x in d)


def name_of(c):
    return '%s: %s' % (c[0].name, ', '.join('%d %s' % (j, short(d)) for j, d in enumerate(c[1])))


def judge(cases, st, draw=None):
    text = design(cases).text()
    q = core.attempt(lambda: (lambda c: (c, c.machines(), c.ca.getLoops()[0]))(fsm.Control(text)))
    if q[0] == 'exc':
        if len(cases) > 1:
            for c in cases:
                judge([c], st)
            return
        st.count('evaluations')
        return st.fail(name_of(cases[0]), 'the analysis raised %s: %s' % (q[1], q[2]), {'text': text})
    ctl, found, loops = q[1]
    loops = {str(n): l for n, l in loops.items()}
    extra = set(found) - {'m.state%d' % i for i in range(len(cases))}
    if extra:
        return st.fail(name_of(cases[0]), 'further machines are found: %s' % sorted(extra), {'text': text})
    for i, c in enumerate(cases):
        st.count('evaluations')
        one(ctl, loops, 'm.state%d' % i, c, st)
    if draw:
        drawn(ctl, draw, text, st)


def one(ctl, loops, name, c, st):
    key = name_of(c)
    text = lambda: {'text': design([c]).text()}
    style, ds = c
    rows = list(reference(style, ds))
    edges = ctl.edges(name)
    graph = {}
    for s, env, n in rows:
        if n is not None:
            graph.setdefault(s, set()).add(n)
    st.count('nontrivial')
    st.count('traces')
    if edges is None:
        by = {}
        for s, env, n in rows:
            by.setdefault(tuple(sorted(env.items())), set()).add(n)
        if any(len(x) > 1 for x in by.values()):
            st.fail(key, 'the state machine is not found', text())
        else:
            st.state(key)
        return
    shown = lambda: ['%s -- %s --> %d' % ('any' if s is None else s, None if k is None else k.tostr(), d) for s, k, d in edges]
    got_graph = {}
    for s, env, n in rows:
        st.count('transitions')
        st.count('judged')
        e = {'m.' + k: x for k, x in env.items()}
        e[name] = s
        try:
            got = ctl.taken(edges, s, e)
        except (dfv.Skip, dfv.Bad) as ex:
            got = repr(ex)
        if got != (set() if n is None else {n}):
            st.fail(key, 'state %d with %s: the text leads to %s, the transitions found to %s' % (s, env, n, sorted(got) if isinstance(got, set) else got), dict(text(), found=shown()))
            return
    for s, k, d in edges:
        for x in [s] if s is not None else graph:
            got_graph.setdefault(x, set()).add(d)
    if got_graph != graph:
        st.fail(key, 'the graph of the transitions found is %s, that of the text %s' % (got_graph, graph), dict(text(), found=shown()))
        return
    want = fsm.cycles(graph)
    if set(loops.get(name, ())) != want:
        st.fail(key, 'the loops found are %s, those of the text %s' % (sorted(loops.get(name, ())), sorted(want)), dict(text(), found=shown()))
        return
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = core.attempt(ctl.found[name].view)
    lines = [re.match(r'(any(?= -- )|\d+) -- ?(.*)--> (\d+)$', l) for l in out.getvalue().splitlines()]
    if r[0] == 'exc' or None in lines or sorted((m.group(1), m.group(2), m.group(3)) for m in lines) != sorted(('any' if s is None else str(s), 'None' if k is None else k.tocode(), str(d)) for s, k, d in edges):
        st.fail(key, 'the view is %r for the transitions %s' % (out.getvalue(), shown()), text())
        return
    st.state(key)
    st.outcome(tuple(sorted((str(s), '' if k is None else k.tostr().replace(name, 's'), d) for s, k, d in edges)))


def drawn(ctl, folder, text, st):
    """the pictures have the edges of the machines"""
    import pygraphviz
    here = os.getcwd()
    os.chdir(folder)
    try:
        for name, f in ctl.found.items():
            st.count('graphs')
            r = core.attempt(lambda: f.tograph(os.path.join(folder, 'x.dot')))
            if r[0] == 'exc':
                st.fail('drawing: %s' % name, 'drawing raised %s: %s' % (r[1], r[2]), {'text': text})
                return
            g = pygraphviz.AGraph(os.path.join(folder, 'x.dot'))
            known = set(f.fsm)
            want = {(s, d) for s, ds in f.fsm.items() for d in ds.values()}
            got = {(int(x), int(y)) for x, y in g.edges()}
            some = {(s, d) for s in f.fsm for d in f.any.values()}
            # transitions from any state: at least from those that have others
            if not want | some <= got or any(e not in want and e[1] not in f.any.values() for e in got):
                st.fail('drawing: %s' % name, 'the picture has the edges %s, the machine %s' % (sorted(got), sorted(want | some)), {'text': text})
                return
    finally:
        os.chdir(here)


# -- loops of graphs ------------------------------------------------------------------------
def loop_graph(n, bits, st):
    """every graph over n states, built edge by edge"""
    from pyverilog.controlflow.controlflow_analyzer import FiniteStateMachine
    from pyverilog.dataflow import dataflow as D
    m = FiniteStateMachine('state')
    graph = {}
    for i in range(n * n):
        if bits >> i & 1:
            s, d = divmod(i, n)
            m.add((s, s), d, D.DFTerminal('c%d' % i))
            graph.setdefault(s, set()).add(d)
    st.count('evaluations')
    st.count('graphs_loops')
    r = core.attempt(m.get_loop)
    want = fsm.cycles(graph)
    if r[0] == 'exc' or set(r[1]) != want:
        st.fail('loops: %d states, %s' % (n, sorted(graph.items())), 'the loops found are %s, there are %s' % (r[1] if r[0] == 'exc' else sorted(r[1]), sorted(want)))
        return
    st.count('judged')
    st.state((n, bits))


def cases(th):
    for style, ds in all_cases(th):
        # (a guard that contradicts the condition under which every state is left: never taken, but the text has it)
        if not style.clear or not any(style.clear in d for d in ds):
            yield style, ds


def all_cases(th):
    ds = list(decisions(3, th))
    for k, m in enumerate(itertools.product(ds, repeat=3)):
        if th:
            if k % 3 == 0:
                for s in (k // 3 % len(STYLES), (k // 3 + 5) % len(STYLES)):
                    yield STYLES[s], list(m)
        elif k % 2 == 0:
            yield STYLES[k // 2 % len(STYLES)], list(m)
    # every style with every decision
    for s in STYLES:
        for k, m in enumerate(itertools.product(ds, repeat=2)):
            if th or k % 5 == 0:
                yield s, list(m) + [ds[(k * 7) % len(ds)]]


HAND = [
    # (text, {machine: {(source or None, destination)}}, {machine: loops})
    ('two machines', 'module m(input CLK, input RST, input a); reg [1:0] state0; reg state1; always @(posedge CLK) if (RST) state0 <= 0; else case (state0) 0: if (state1) state0 <= 1; 1: state0 <= 2; 2: if (!state1) state0 <= 0; endcase '
     'always @(posedge CLK) if (RST) state1 <= 0; else if (state0 == 2) state1 <= 0; else if (a) state1 <= 1; endmodule',
     {'m.state0': {(0, 1), (1, 2), (2, 0)}}, {'m.state0': {(0, 1, 2)}}),
    ('in an instance', 'module s #(parameter A = 0, parameter B = 1) (input CLK, input RST, input go, output reg [1:0] state); always @(posedge CLK) if (RST) state <= A; else case (state) A: if (go) state <= B; B: state <= A; endcase endmodule '
     'module m(input CLK, input RST, input a, output [1:0] x, output [1:0] y); s u(.CLK(CLK), .RST(RST), .go(a), .state(x)); s #(.A(2), .B(3)) w(.CLK(CLK), .RST(RST), .go(~a), .state(y)); endmodule',
     {'m.u.state': {(0, 1), (1, 0)}, 'm.w.state': {(2, 3), (3, 2)}}, {'m.u.state': {(0, 1)}, 'm.w.state': {(2, 3)}}),
    ('generated', 'module m(input CLK, input RST, input [1:0] a); genvar g; generate for (g = 0; g < 2; g = g + 1) begin: blk reg [1:0] state; always @(posedge CLK) if (RST) state <= 0; else case (state) 0: if (a[g]) state <= g + 1; g + 1: state <= 0; endcase end endgenerate endmodule',
     {'m.md_generate0.ge_for0[0].blk.state': {(0, 1), (1, 0)}, 'm.md_generate0.ge_for0[1].blk.state': {(0, 2), (2, 0)}}, {}),
    ('other names', 'module m(input CLK, input RST, input a); reg [1:0] fsm; reg mode; reg [1:0] q; always @(posedge CLK) if (RST) begin fsm <= 0; mode <= 0; q <= 0; end else begin if (fsm == 0 && a) fsm <= 3; else if (fsm == 3) fsm <= 0; if (mode == 0) mode <= a; if (q == 0) q <= 1; end endmodule',
     {'m.fsm': {(0, 3), (3, 0)}}, {'m.fsm': {(0, 3)}}),
    ('later state', 'module m(input CLK, input RST, input a); reg [1:0] state; reg [1:0] d1_state; always @(posedge CLK) begin d1_state <= state; if (RST) state <= 0; else case (state) 0: if (a) state <= 1; 1: state <= 0; endcase end endmodule',
     {'m.state': {(0, 1), (1, 0)}}, {'m.state': {(0, 1)}}),
    ('function', 'module m(input CLK, input RST, input a); reg [1:0] state; function [1:0] f; input [1:0] s; input c; case (s) 0: f = c ? 1 : 0; 1: f = 2; default: f = 0; endcase endfunction always @(posedge CLK) if (RST) state <= 0; else state <= f(state, a); endmodule',
     {'m.state': {(0, 1), (0, 0), (1, 2), (2, 0), (3, 0)}}, {'m.state': {(0,), (0, 1, 2)}}),
    ('loaded', 'module m(input CLK, input RST, input a, input [1:0] d); reg [1:0] state; always @(posedge CLK) if (RST) state <= 0; else if (a) state <= d; else case (state) 0: state <= 1; 2: state <= 3; endcase endmodule',
     {'m.state': {(0, 1), (2, 3)}}, {}),
    ('copies', 'module m(input CLK, input [1:0] d); reg [1:0] state0, state1, state2; wire [1:0] w; always @(posedge CLK) begin state0 <= d; state1 <= w; state2 <= state1; end endmodule', {}, {}),
    ('swap', 'module m(input CLK); reg [1:0] state0, state1; always @(posedge CLK) begin state0 <= state1; state1 <= state0; end endmodule', {}, {}),
    ('other things', 'module m(input CLK, input RST, input a, input [1:0] d, output reg [1:0] state, output reg [1:0] q); parameter STATE_A = 0; localparam STATE_B = 1; reg [1:0] cnt_mem [0:3]; integer count; wire step; reg mode; '
     'assign step = a; always @* begin mode = a; end always @(posedge CLK) begin cnt_mem[d] <= d; q <= cnt_mem[state]; if (RST) state <= STATE_A; else if (state == STATE_A && step) state <= STATE_B; else if (state == STATE_B && mode) state <= STATE_A; end endmodule',
     {'m.state': {(0, 1), (1, 0)}}, {'m.state': {(0, 1)}}),
    ('blocking', 'module m(input CLK, input RST, input a); reg [1:0] state; reg go; always @(posedge CLK) begin go = a; if (RST) state <= 0; else case (state) 0: if (go) state <= 1; 1: state <= 0; endcase end endmodule',
     {'m.state': {(0, 1), (1, 0)}}, {'m.state': {(0, 1)}}),
    ('casez', "module m(input CLK, input RST, input a); reg [2:0] state; always @(posedge CLK) if (RST) state <= 1; else casez (state) 3'b001: if (a) state <= 2; 3'b010: state <= 4; 3'b100: state <= 1; endcase endmodule",
     {'m.state': {(1, 2), (2, 4), (4, 1)}}, {'m.state': {(1, 2, 4)}}),
    ('several conditions', 'module m(input CLK, input RST, input a); reg [1:0] state; always @(posedge CLK) if (RST) state <= 0; else case (state) 0, 1: if (a) state <= 2; 2, 3: state <= 0; endcase endmodule',
     {'m.state': {(0, 2), (1, 2), (2, 0), (3, 0)}}, {'m.state': {(0, 2)}}),
    ('long ring', 'module m(input CLK, input RST); reg [6:0] state; always @(posedge CLK) if (RST) state <= 0; else case (state) %s endcase endmodule' % ' '.join('%d: state <= %d;' % (i, (i + 1) % 70) for i in range(70)),
     {'m.state': {(i, (i + 1) % 70) for i in range(70)}}, {'m.state': {tuple(range(70))}}),
    ('counter', 'module m(input CLK, input RST, input a); reg [1:0] count; always @(posedge CLK) if (RST) count <= 0; else if (count == 3) count <= 0; else if (a) count <= count + 1; endmodule',
     {'m.count': {(3, 0)}}, {}),
]


def judge_hand(c, st):
    name, text, machines, loops = c
    key = 'other: %s' % name
    st.count('evaluations')
    q = core.attempt(lambda: (lambda c: (c, c.machines(), c.ca.getLoops()[0]))(fsm.Control(text)))
    if q[0] == 'exc':
        return st.fail(key, 'the analysis raised %s: %s' % (q[1], q[2]), {'text': text})
    ctl, found, ls = q[1]
    got = {n: {(s, d) for s, k, d in ctl.edges(n)} for n in found}
    if {n: got.get(n) for n in machines} != machines:
        return st.fail(key, 'the machines found are %s, there are %s' % (got, machines), {'text': text})
    ls = {str(n): set(l) for n, l in ls.items()}
    for n, want in loops.items():
        if ls.get(n) != want:
            return st.fail(key, 'the loops of %s found are %s, there are %s' % (n, ls.get(n), want), {'text': text})
    st.count('judged')
    st.state(key)


def selfcheck(cs):
    """the reference of the machines agrees with the interpreter of their text"""
    for c in cs:
        if isinstance(c[0], Local):
            continue
        d = design([c])
        m = sim.Machine(d)
        for s, env, n in reference(*c):
            now = m.step(dict(env, CLK=1, RST=0, RST_X=1, state0=s))['state0']
            if now[1] or now[0] != (s if n is None else n):
                raise RuntimeError('%s: state %d %s: %s, reference %s' % (name_of(c), s, env, now, n))


def run(ctx):
    th = ctx.thorough
    n = 32

    def work(u, st):
        f, i = u
        if f == 'edges':
            return algebra.edge_sequences(st, th, i, n)
        if f == 'hand':
            for c in HAND:
                judge_hand(c, st)
            return
        if f == 'loops':
            for k in range(1 << 9) if i == 0 else ():
                loop_graph(3, k, st)
            for k in range(i, 1 << 16, n if th else n * 4):
                loop_graph(4, k, st)
            if th:
                for k in range(i, 1 << 25, n * 199):
                    loop_graph(5, k, st)
            return
        mine = [c for j, c in enumerate(cases(th)) if j // 20 % n == i]
        selfcheck(mine[::7])
        folder = tempfile.mkdtemp()
        try:
            for k in range(0, len(mine), 20):
                judge(mine[k:k + 20], st, folder if k == 0 and i % 4 == 0 else None)
        finally:
            shutil.rmtree(folder)

    with core.quiet():
        ctx.explore([('machines', i) for i in range(n)] + [('loops', i) for i in range(n)] + [('edges', i) for i in range(n)] + [('hand', 0)], work)
    ctx.stats.sample(design([(STYLES[0], list(decisions(3, False))[3:6])]).text())
    ctx.rule = ('one state is one machine (decisions of every state in one style of writing) analysed by the real code, or one transition graph whose loops are searched; transitions are valuations (state, inputs) '
                'under which the transitions found are compared with the machine; distinct_observed_outcomes are different sets of transitions')
    ctx.bounds = {
        'machines': 'every machine of 3 states whose states hold, go on, or go on under a guard, with alternatives%s' % ('; every third, in two styles' if th else '; every second, styles take turns'),
        'styles': ', '.join(s.name for s in STYLES),
        'loops': 'every graph of 3 states, %s of 4%s' % ('every graph' if th else 'every fourth', ', every 199th of 5' if th else ''),
        'edges': 'every sequence of up to 3 additions of edges (ranges of states, any state; guards) that leads every state to one: unchanged by resolving',
        'other': 'two machines, instances, generate blocks, functions, counters, delayed states', 'values': 'every state value, two 1-bit inputs and a 2-bit input',
    }
    ctx.assumptions = ['reset signals are named so and do nothing else', 'transitions are assignments of constants']
