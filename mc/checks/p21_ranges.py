"""P21: the values of a state and the further conditions inferred from a condition are exactly those that make it true."""
import itertools

from mc import algebra, core, dfv, fsm, sim
from mc.checks.p16_clocked import N
from mc.sim import B, CAT, IX, K, PS, T, U, V, Design, Sig, expr_text

S = V('s')
ENVS = [dict(a=a, b=b, v=v) for a in (0, 1) for b in (0, 1) for v in range(4)]
CMP = ('==', '!=', '===', '!==', '<', '>', '<=', '>=')


def comparisons(ops=CMP, cs=range(5)):
    for op in ops:
        for c in cs:
            k = K("2'd%d" % c if c < 4 else "3'd%d" % c)
            yield B(S, op, k)
            yield B(k, op, S)
            if c == 2:
                yield B(S, op, K(str(c)))


def others():
    """conditions that are no comparison of the state with a constant"""
    a, b, v = V('a'), V('b'), V('v')
    return [S, IX('s', 0), B(PS('s', 1, 0), '==', K("2'd2")), a, b, v, B(v, '==', K("2'd2")), B(v, '>', K("2'd1")), B(a, '==', b), IX('v', 1), B(S, '==', v), B(S, '<', v), B(v, '>=', S), B(v, '!=', S),
            B(B(S, '^', K("2'd1")), '==', K("2'd2")), B(S, '==', B(K("2'd3"), '^', K("2'd1"))), K("1'b1"), K("1'b0"), K("2'd2"), CAT(a, b), B(CAT(a, b), '==', K("2'd1")), B(CAT(S, a), '==', K("3'd5")),
            U('&', v), U('|', v), U('^', v), U('~|', v), U('~&', v), U('~^', v), U('&', S), U('|', S), U('~', v), U('~', S), U('!', a), U('~', a), U('!', v), U('!', S), B(v, '&', K("2'd2")), B(v, '&', S), B(S, '&', K("2'd1")),
            B(v, '|', S), B(a, '^', b), B(v, '^', S), B(S, '>', K("2'd0")), T(a, S, v), T(a, B(S, '==', K("2'd1")), B(S, '==', K("2'd2"))), T(B(S, '>', K("2'd1")), a, b),
            B(B(S, '==', K("2'd1")), '==', a), B(B(S, '==', K("2'd1")), '!=', K("1'b0")), B(B(S, '<', K("2'd2")), '^', a), B(B(S, '==', K("2'd1")), '==', K("1'b0")), B(v, '<<', K("1'd1")), B(v, '>>', S)]


def few(th):
    """the conditions that are combined"""
    a, b, v = V('a'), V('b'), V('v')
    r = [B(S, '==', K("2'd1")), B(S, '!=', K("2'd2")), B(S, '<', K("2'd2")), B(K("2'd1"), '<=', S), B(S, '>=', K("2'd3")), B(S, '<', K("2'd0")), S, a, U('!', b), v, B(v, '==', K("2'd2")), IX('s', 0), B(S, '==', v)]
    if th:
        r += [B(S, '>', K("2'd3")), B(K("2'd2"), '>', S), B(S, '<=', K("2'd1")), B(S, '===', K("2'd0")), U('~', a), B(v, '&', K("2'd2")), U('&', v), K("1'b1"), K("1'b0"), U('~', S), U('|', S), CAT(a, b)]
    return r


def conditions(th):
    """(family, condition list): the conditions of nested ifs, each with its polarity"""
    for c in itertools.chain(comparisons(), others()):
        for e in (c, U('!', c), U('~', c), U('!', U('!', c)), U('~', U('!', c)), U('|', c), U('&', c)):
            yield 'one', [(e, True)]
            yield 'one', [(e, False)]
    fs = few(th)
    for x, y in itertools.product(fs, repeat=2):
        for op in ('&&', '||', '&', '|', '^', '=='):
            yield 'two', [(B(x, op, y), True)]
            if op != '==':
                yield 'two', [(U('!', B(x, op, y)), True)]
        for p, q in itertools.product((True, False), repeat=2):
            yield 'nested', [(x, p), (y, q)]
    gs = fs[:4] + [a for a in fs if a in (V('a'), V('v'))] if not th else fs[:6] + [V('a'), V('v'), IX('s', 0), B(S, '==', V('v'))]
    for x, y, z in itertools.product(gs, repeat=3):
        for o, p in itertools.product(('&&', '||'), repeat=2):
            yield 'three', [(B(B(x, o, y), p, z), True)]
            if th:
                yield 'three', [(B(U('!', B(x, o, y)), p, z), True)]
                yield 'three', [(U('!', B(x, o, B(y, p, z))), True)]
        if th:
            for ps in itertools.product((True, False), repeat=3):
                yield 'three', list(zip((x, y, z), ps))
    # wider states: the bounds of the ranges
    for op in CMP[4:] + CMP[:2]:
        for c in (0, 1, 2, 3, 4, 6, 7):
            for op2 in CMP[4:] + CMP[:2]:
                for c2 in (1, 4, 6) if not th else range(8):
                    yield 'wide', [(B(S, op, K("3'd%d" % c)), True), (B(S, op2, K("3'd%d" % c2)), True)]
                    yield 'wide', [(B(B(S, op, K("3'd%d" % c)), '||', B(S, op2, K("3'd%d" % c2))), False)]


def rename(e, n):
    if isinstance(e, tuple):
        if e == S:
            return V(n)
        if e[0] in ('idx', 'part') and e[1] == 's':
            return (e[0], n) + tuple(rename(x, n) for x in e[2:])
        return tuple(rename(x, n) for x in e)
    return e


def body(conds, n, w):
    """nested ifs; the innermost assigns 1; a further branch takes 0 to 2 where the first condition fails"""
    base = [('if', B(V(n), '==', K("%d'd0" % w)), [N(V(n), K("%d'd2" % w))], None)]
    e, p = conds[0]
    inner = [N(V(n), K("%d'd1" % w))]
    for x, q in reversed(conds[1:]):
        x = rename(x, n)
        inner = [('if', x, inner, None)] if q else [('if', x, [], inner)]
    e = rename(e, n)
    return [('if', e, inner, base)] if p else [('if', e, base, inner)]


def design(cases, w):
    sigs = [Sig('CLK', 'input'), Sig('a', 'input'), Sig('b', 'input'), Sig('v', 'input', 1, 0)]
    items = []
    for i, c in enumerate(cases):
        sigs.append(Sig('state%d' % i, 'reg', w - 1, 0))
        items.append(('always', '(posedge CLK)', body(c, 'state%d' % i, w)))
    return Design(sigs, items)


def label(conds):
    return ' and '.join(('%s' if p else 'not %s') % expr_text(e) for e, p in conds)


def judge(cases, w, st):
    """cases: [(family, condition list)], one register each"""
    text = design([c for f, c in cases], w).text()
    q = core.attempt(lambda: (lambda c: (c, c.machines()))(fsm.Control(text)))
    if q[0] == 'exc':
        if len(cases) > 1:
            for c in cases:
                judge([c], w, st)
            return
        f, c = cases[0]
        st.count('evaluations')
        return st.fail('%s: %s' % (f, label(c)), 'the analysis raised %s: %s' % (q[1], q[2]), {'text': text})
    ctl = q[1][0]
    for i, (f, c) in enumerate(cases):
        st.count('evaluations')
        one(ctl, 'm.state%d' % i, f, c, w, st, i, len(cases))


def one(ctl, name, f, conds, w, st, i, n):
    key = '%s: %s' % (f, label(conds))
    m = sim.Machine(Design([Sig('a', 'input'), Sig('b', 'input'), Sig('v', 'input', 1, 0), Sig('s', 'reg', w - 1, 0)], []))
    edges = ctl.edges(name)
    rows = []
    for s in range(1 << w):
        for env in ENVS:
            given = {k: (x, 0, 0) for k, x in dict(env, s=s).items()}
            try:
                ts = [m.truth(e, given, None) == p for e, p in conds]
            except dfv.Skip:
                st.count('skipped')
                rows.append((s, env, None))
                continue
            rows.append((s, env, {1} if all(ts) else {2} if not ts[0] and s == 0 else set()))
    st.count('nontrivial')
    st.count('traces')
    if edges is None:
        # a register whose changes do not depend on its value is no state machine
        seen = {}
        for s, env, want in rows:
            if want is not None:
                seen.setdefault(tuple(sorted(env.items())), []).append(want)
        if any(x != r[0] for r in seen.values() for x in r) and not (f == 'nested' and any(label([(e, True)]) in ("1'b1", "1'b0") for e, p in conds)):
            st.fail(key, 'the state machine is not found', {'text': design([conds], w).text()})
            return
        st.state(key)
        return
    for s, c, d in edges:
        if isinstance(c, fsm.D.DFEvalValue) and c.value == 0:
            st.fail(key, 'there is a transition from %s to %d that is never taken' % ('any state' if s is None else s, d), {'text': design([conds], w).text()})
            return
    for s, env, want in rows:
        if want is None:
            continue
        st.count('transitions')
        st.count('judged')
        e = {'m.' + k: x for k, x in env.items()}
        e[name] = s
        try:
            got = ctl.taken(edges, s, e)
        except (dfv.Skip, dfv.Bad) as ex:
            got = repr(ex)
        if got != want:
            shown = ['%s -- %s --> %d' % ('any' if s is None else s, None if c is None else c.tostr(), d) for s, c, d in edges]
            st.fail(key, 'state %d with %s: the text leads to %s, the transitions found to %s' % (s, env, sorted(want), sorted(got) if isinstance(got, set) else got),
                    {'text': design([conds], w).text(), 'found': shown})
            return
    st.state(key)
    st.outcome(tuple(sorted((str(s), '' if c is None else c.tostr().replace(name, 's'), d) for s, c, d in edges)))


def run(ctx):
    th = ctx.thorough
    n = 32

    def work(u, st):
        if u >= n:
            return algebra.state_sets(st, th, u - n, n)
        mine = [c for j, c in enumerate(conditions(th)) if j // 24 % n == u]
        for w, cs in ((2, [c for c in mine if c[0] != 'wide']), (3, [c for c in mine if c[0] == 'wide'])):
            for i in range(0, len(cs), 24):
                judge(cs[i:i + 24], w, st)

    with core.quiet():
        ctx.explore(list(range(2 * n)), work)
    ctx.stats.sample(design([[(B(S, '<', K("2'd2")), True), (V('a'), False)]], 2).text())
    ctx.rule = ('one state is one condition (or nesting of conditions) that guards a change of a state register, analysed by the real code; transitions are valuations (state, inputs) under which the transitions '
                'it infers are compared with the condition; distinct_observed_outcomes are different sets of inferred transitions')
    ctx.bounds = {
        'one': 'every comparison of a 2-bit state with every constant in both orders, and 50 other conditions, each plain, negated (!, ~, both) and reduced',
        'two': 'every pair of %d conditions under && || & | ^ ==, negated too' % len(few(th)), 'nested': 'every pair of them as nested ifs with either branch',
        'three': 'triples under && and ||' + (', negations and nested ifs' if th else ''), 'wide': 'pairs of comparisons of a 3-bit state: bounds of ranges',
        'sets of states': 'every list of disjoint ranges of 0..3 and "any", without a condition and under one: complement, and, or of all pairs; lists of two',
        'values': 'every value of the state, two 1-bit inputs and a 2-bit input',
    }
    ctx.assumptions = ['conditions with unknown bits are outside']
