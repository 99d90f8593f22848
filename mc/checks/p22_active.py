"""P22: the active conditions reported for a signal are those under which the text gives it such a value."""
import itertools

from mc import algebra, core, dfv, fsm, sim
from mc.checks.p16_clocked import N, P
from mc.checks.p20_machines import ENVS, GUARDS, decide, decisions, short, stmts
from mc.sim import B, K, T, U, V, Design, Sig

HOLD = 'hold'
PER = 10


class Way(object):
    """A way to write a signal that depends on the state; ds: decision per state"""
    clocked = True
    wide = 2
    reset = ('if', V('RST'))
    name = 'case'
    machine = 'm.state0'

    def code(self, d):
        return K("2'd%d" % d)

    def put(self, n, d):
        return N(V(n), self.code(d))

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        arms = [([K("2'd%d" % j)], stmts(d, z, self.code)) for j, d in enumerate(ds)]
        return [self.wrap(n, [('case', V('state0'), arms)])]

    def wrap(self, n, body):
        return ('always', '(posedge CLK)', [('if', V('RST'), [self.put(n, 0)], body)])

    def sig(self, n):
        return Sig(n, 'reg', 1, 0)

    def leaf(self, ds, state, env):
        """(value or HOLD, whether the machine was asked)"""
        if state < len(ds):
            d = decide(ds[state], env)
            return (HOLD if d is None else d), True
        return HOLD, True


class Default(Way):
    name = 'case with default'

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        arms = [([K("2'd%d" % j)], stmts(d, z, self.code)) for j, d in enumerate(ds)] + [(None, [self.put(n, 3)])]
        return [self.wrap(n, [('case', V('state0'), arms)])]

    def leaf(self, ds, state, env):
        return Way.leaf(self, ds, state, env) if state < len(ds) else (3, True)


class Chain(Way):
    name = 'if chain'

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        body = None
        for j, d in reversed(list(enumerate(ds))):
            body = [('if', B(K("2'd%d" % j), '==', V('state0')), stmts(d, z, self.code), body)]
        return [self.wrap(n, body)]


class Ranges(Way):
    name = 'ranges'

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        body = None
        for j, d in reversed(list(enumerate(ds))):
            body = [('if', B(V('state0'), '<=', K("2'd%d" % j)), stmts(d, z, self.code), body)]
        return [self.wrap(n, body)]


class Not(Way):
    name = 'negated'

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        body = None
        for j, d in reversed(list(enumerate(ds))):
            body = [('if', B(V('state0'), '!=', K("2'd%d" % j)), body or [], stmts(d, z, self.code))]
        return [self.wrap(n, body)]


class Overwritten(Way):
    """each if overwrites what the ones before it wrote: the next state is asked together with b"""
    name = 'overwritten'

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        body = [('if', B(V('state0'), '>', K("2'd0")), [self.put(n, 1)], None)]
        for j, d in enumerate(ds):
            body.append(('if', B(B(V('state0'), '==', K("2'd%d" % j)), '&&', V('b')), stmts(d, z, self.code), None))
        return [self.wrap(n, body)]

    def leaf(self, ds, state, env):
        r = 1 if state > 0 else HOLD
        if env['b'] and state < len(ds):
            d = decide(ds[state], env)
            r = r if d is None else d
        return r, True


class Cleared(Way):
    """the reset is one part of a condition"""
    name = 'reset or clear'

    def wrap(self, n, body):
        return ('always', '(posedge CLK)', [('if', B(V('RST'), '||', V('b')), [self.put(n, 0)], body)])

    def leaf(self, ds, state, env):
        return (0, False) if env['b'] else Way.leaf(self, ds, state, env)


class ClearedLow(Cleared):
    name = 'clear or low reset'

    def wrap(self, n, body):
        return ('always', '(posedge CLK or negedge RST_X)', [('if', U('!', V('RST_X')), [self.put(n, 0)], [('if', V('b'), [self.put(n, 0)], body)])])


class Enabled(Way):
    """all under a condition that the reset is part of"""
    name = 'not reset and enabled'

    def wrap(self, n, body):
        return ('always', '(posedge CLK)', [('if', B(U('!', V('RST')), '&&', V('b')), body, None)])

    def leaf(self, ds, state, env):
        return Way.leaf(self, ds, state, env) if env['b'] else (HOLD, False)


class Mixed(Way):
    """the machine is asked in the middle"""
    name = 'machine inside'

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        arms = [([K("2'd%d" % j)], stmts(d, z, self.code)) for j, d in enumerate(ds)]
        return [self.wrap(n, [('if', B(V('v'), '<', K("2'd2")), [('case', V('state0'), arms)], None)])]

    def leaf(self, ds, state, env):
        return Way.leaf(self, ds, state, env) if env['v'] < 2 else (HOLD, False)


class Contradiction(Way):
    """in every state, tests for other states that cannot hold"""
    name = 'contradictions'

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        arms = [([K("2'd%d" % j)], [('if', B(V('state0'), '==', K("2'd%d" % ((j + 1) % 4))), [('if', V('a'), [self.put(n, 2)], [self.put(n, 1)])], stmts(d, z, self.code) or None)]) for j, d in enumerate(ds)]
        return [self.wrap(n, [('case', V('state0'), arms)])]


class Comb(Way):
    name = 'combinational'
    clocked = False

    def items(self, n, ds):
        z = lambda c: P(V(n), c)
        arms = [([K("2'd%d" % j)], stmts(d, z, self.code)) for j, d in enumerate(ds)]
        return [('always', '*', [P(V(n), self.code(0)), ('case', V('state0'), arms)])]

    def leaf(self, ds, state, env):
        r = Way.leaf(self, ds, state, env)
        return (0 if r[0] == HOLD else r[0]), True


class Wire(Comb):
    name = 'wire'

    def sig(self, n):
        return Sig(n, 'wire', 1, 0)

    def items(self, n, ds):
        def e(d):
            if d[0] == 'hold':
                return self.code(0)
            if d[0] == 'to':
                return self.code(d[1])
            return T(GUARDS[d[1]][0], self.code(d[2]), self.code(0) if d[0] == 'if' else self.code(d[3]) if d[0] == 'else' else T(GUARDS[d[3]][0], self.code(d[4]), self.code(0)))
        r = self.code(0)
        for j, d in reversed(list(enumerate(ds))):
            r = T(B(V('state0'), '==', K("2'd%d" % j)), e(d), r)
        return [('assign', V(n), r)]


class Two(Way):
    """two machines"""
    name = 'two machines'

    def items(self, n, ds):
        z = lambda c: N(V(n), c)
        arms = [([K("2'd%d" % j)], [('if', B(V('state1'), '==', K("2'd%d" % (2 - j))), stmts(d, z, self.code), None)]) for j, d in enumerate(ds)]
        return [self.wrap(n, [('case', V('state0'), arms)])]

    def leaf(self, ds, state, env):
        if state < len(ds) and env['state1'] == 2 - state:
            return Way.leaf(self, ds, state, env)
        return HOLD, True


WAYS = [Way(), Default(), Chain(), Ranges(), Not(), Overwritten(), Cleared(), ClearedLow(), Enabled(), Mixed(), Contradiction(), Comb(), Wire(), Two()]

# what is asked for: name, the analyser's filter, what a leaf has to be


def filters():
    from pyverilog.controlflow import splitter as s
    return [('above 0', s.active_constant, lambda x: x != HOLD and x > 0),
            ('equal to 0', lambda t, n: s.active_constant(t, n, '==', 0), lambda x: x == 0),
            ('above 1', lambda t, n: s.active_constant(t, n, '>', 1), lambda x: x != HOLD and x > 1),
            ('changed', s.active_modify, lambda x: x != HOLD),
            ('kept', s.active_unmodify, lambda x: x == HOLD)]


def design(cs):
    sigs = [Sig('CLK', 'input'), Sig('RST', 'input'), Sig('RST_X', 'input'), Sig('a', 'input'), Sig('b', 'input'), Sig('v', 'input', 1, 0), Sig('go', 'wire')]
    items = [('assign', V('go'), B(V('a'), '&', U('~', V('b'))))]
    for i in range(2):
        s = 'state%d' % i
        sigs.append(Sig(s, 'reg', 1, 0))
        arms = [([K("2'd%d" % j)], [('if', V('ab'[i]), [N(V(s), K("2'd%d" % ((j + 1) % 3)))], None)]) for j in range(3)]
        items.append(('always', '(posedge CLK)', [('if', V('RST'), [N(V(s), K("2'd0"))], [('case', V(s), arms)])]))
    for k, (way, ds) in enumerate(cs):
        sigs.append(way.sig('act%d' % k))
        items += way.items('act%d' % k, ds)
    return Design(sigs, items)


def name_of(c):
    return '%s: %s' % (c[0].name, ', '.join('%d %s' % (j, short(d)) for j, d in enumerate(c[1])))


def points():
    for s0, s1 in itertools.product(range(4), repeat=2):
        for env in ENVS:
            yield s0, dict(env, state1=s1)


def judge(cs, st):
    from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
    text = design(cs).text()
    q = core.attempt(lambda: fsm.Control(text, cls=VerilogActiveConditionAnalyzer))
    if q[0] == 'exc':
        if len(cs) > 1:
            for c in cs:
                judge([c], st)
            return
        st.count('evaluations')
        return st.fail(name_of(cs[0]), 'the analysis raised %s: %s' % q[1:], {'text': text})
    ctl = q[1]
    if sorted(map(str, ctl.ca.fsms)) != ['m.state0', 'm.state1']:
        return st.fail(name_of(cs[0]), 'the machines are %s' % sorted(map(str, ctl.ca.fsms)), {'text': text})
    for k, c in enumerate(cs):
        for f in filters():
            st.count('evaluations')
            one(ctl, 'm.act%d' % k, c, f, st)


def one(ctl, n, c, f, st):
    way, ds = c
    key = '%s, %s' % (name_of(c), f[0])
    text = lambda: {'text': design([c]).text(), 'asked': f[0]}
    from pyverilog.utils import util
    r = core.attempt(lambda: ctl.ca.getActiveConditions(util.toTermname(n), condition=f[1]))
    if r[0] == 'exc':
        return st.fail(key, 'raised %s: %s' % r[1:], text())
    got = {str(m): pairs for m, pairs in r[1].items()}
    st.count('nontrivial')
    st.count('traces')
    if set(got) - {'m.state0', 'm.state1', n}:
        return st.fail(key, 'reported for %s' % sorted(got), text())
    matters = len({tuple(way.leaf(ds, s0, e)[0] for s, e in points() if s == 0) for s0 in range(4)}) > 1
    shown = lambda: dict(text(), reported={m: ['%s: %s' % (s, None if k is None else k.tostr()) for s, k in ps] for m, ps in got.items()})
    for s0, env in points():
        st.count('transitions')
        e = {'m.' + k: x for k, x in env.items()}
        e['m.state0'] = s0
        leaf, asked = way.leaf(ds, s0, env)
        for own in range(3):
            e[n] = own
            want = f[2](leaf)
            for m, pairs in got.items():
                st.count('judged')
                try:
                    has = any(s in ('any', e[m]) and ctl.true(k, e) for s, k in pairs)
                except (dfv.Skip, dfv.Bad) as ex:
                    return st.fail(key, 'a reported condition has no value: %s' % ex, shown())
                if has and not want:
                    return st.fail(key, 'with %s = %d and %s the conditions reported hold, but the text gives %s' % (m, e[m], env, leaf), shown())
                if m == n:
                    break
            if n in got:
                continue
            if want and asked and matters:
                for m in ('m.state0',) + (('m.state1',) if isinstance(way, Two) and leaf != HOLD else ()):
                    if not any(s in ('any', e[m]) and ctl.true(k, e) for s, k in got.get(m, ())):
                        return st.fail(key, 'with %s = %d and %s the text gives %s, no condition reported for %s holds' % (m, e[m], env, leaf, m), shown())
            break
    if n in got:
        # nothing depends on a machine
        hit = [(s0, env) for s0, env in points() if f[2](way.leaf(ds, s0, env)[0]) and way.leaf(ds, s0, env)[1]]
        if hit and matters and not got[n] == (('any', None),):
            return st.fail(key, 'reported for no machine', shown())
    st.state(key)
    st.outcome(tuple(sorted((m, str(s), '' if k is None else k.tostr().replace(n, 'x')) for m, ps in got.items() for s, k in ps)))


def cases(th):
    ds = list(decisions(3, th))
    n = len(WAYS)
    for k, m in enumerate(itertools.product(ds, repeat=3)):
        if th:
            if k % 12 == 0:
                yield WAYS[k // 12 % n], list(m)
        elif k % 7 == 0:
            yield WAYS[k // 7 % n], list(m)
    for w in WAYS:
        for k, m in enumerate(itertools.product(ds, repeat=2)):
            if th or k % 5 == 0:
                yield w, list(m) + [ds[(k * 7) % len(ds)]]


def selfcheck(cs):
    """the reference agrees with the interpreter of the text"""
    for c in cs:
        if not c[0].clocked:
            continue
        m = sim.Machine(design([c]))
        for s0, env in points():
            for own in (0, 3):
                now = m.step(dict({k: x for k, x in env.items() if k != 'state1'}, CLK=1, RST=0, RST_X=1, state0=s0, state1=env['state1'], act0=own))['act0']
                leaf = c[0].leaf(c[1], s0, env)[0]
                if now[1] or now[0] != (own if leaf == HOLD else leaf):
                    raise RuntimeError('%s: %d %s: %s, reference %s' % (name_of(c), s0, env, now, leaf))


OTHER = [
    # (text, signal, what is reported: {machine: {(state, condition)}})
    ('always', 'module m(input CLK, input RST, output reg act); always @(posedge CLK) if (RST) act <= 0; else act <= 1; endmodule', 'm.act', {'m.act': {('any', 'None')}}),
    ('never', 'module m(input CLK, input RST, output reg act); always @(posedge CLK) if (RST) act <= 0; else act <= 0; endmodule', 'm.act', {}),
    ('constant', 'module m(output act); assign act = 1; endmodule', 'm.act', {'m.act': {('any', 'None')}}),
    ('not there', 'module m(output act); assign act = 1; endmodule', 'm.b', {}),
    ('constant 0', 'module m(output act); assign act = 0; endmodule', 'm.act', {}),
    ('itself', 'module m(input CLK, input RST, input a, output reg [1:0] q); always @(posedge CLK) if (RST) q <= 0; else if (q == 2 && a) q <= 3; endmodule', 'm.q', {'m.q': {(2, "(Operator GreaterThan Next:(Terminal m.a),'d0)")}}),
]


def judge_other(c, st):
    from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
    from pyverilog.utils import util
    name, text, sig, want = c
    st.count('evaluations')
    r = core.attempt(lambda: fsm.Control(text, cls=VerilogActiveConditionAnalyzer).ca.getActiveConditions(util.toTermname(sig)))
    got = r if r[0] == 'exc' else {str(m): {(s, 'None' if k is None else k.tostr()) for s, k in ps} for m, ps in r[1].items()}
    st.state(name)
    if got != want:
        st.fail('other: %s' % name, 'reported: %s, expected: %s' % (got, want), {'text': text})


def run(ctx):
    th = ctx.thorough
    n = 32

    def work(u, st):
        if u[0] == 'other':
            for c in OTHER:
                judge_other(c, st)
            return
        if u[0] == 'paths':
            return algebra.paths(st, th, u[1], n)
        mine = [c for j, c in enumerate(cases(th)) if j // PER % n == u[1]]
        selfcheck(mine[::5])
        for k in range(0, len(mine), PER):
            judge(mine[k:k + PER], st)

    with core.quiet():
        ctx.explore([('acts', i) for i in range(n)] + [('paths', i) for i in range(n)] + [('other', 0)], work)
    ctx.stats.sample(design([(WAYS[6], list(decisions(3, False))[3:6])]).text())
    ctx.rule = ('one state is a signal (decisions of every state, one way of writing) with one question about it; transitions are valuations (states of two machines, inputs): a condition reported may hold only where the text gives '
                'such a value, and where the text does because of the state one must hold')
    ctx.bounds = {
        'signals': 'a decision (hold, a constant, under a guard, with alternatives) for each of 3 states: %s of all combinations, ways take turns, and every way with %s pair of decisions' % (('every 12th', 'every') if th else ('every 7th', 'every 5th')),
        'paths': 'split on every tree of two conditions and up to 3 levels with absent branches%s: under every valuation the conditions of one path hold, that of the value',
        'ways': ', '.join(w.name for w in WAYS), 'questions': ', '.join(f[0] for f in filters()),
        'values': 'every value of two state machines of 2 bits, two 1-bit inputs and a 2-bit input',
    }
    ctx.assumptions = ['reset signals are named so, and the question is about the time outside of reset', 'the values asked for are assignments of constants',
                       'a condition that holds in every state of a machine is not listed for that machine', 'active_range.py, which its authors call obsolete, is not looked at']
