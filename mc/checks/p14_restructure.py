"""P14: restructuring conditions, replacing absent branches and merging paths preserve values."""
import itertools

from mc import core, dfv
from mc.checks import p13_opt as p13
from mc.checks.p13_opt import A, B, C, DD, S, Q, I, E, op, sel, show, WID, SIG, NAMES, TERM
from pyverilog.dataflow import dataflow as D
from pyverilog.dataflow import reorder, replace
from pyverilog.dataflow.merge import VerilogDataflowMerge


K = p13.name('k')       # a memory of two words
KT = D.DFTerminal(K)
p13.MEMS[K] = 2
WORDS = dict(WID)
WORDS[K] = (4, 0, False, (0, 1))


def br(c, t, f):
    return D.DFBranch(c, t, f)


def hold_all(w):
    return (0, 0, dfv.mask(w), w)


def judge(key, t, fn, st, old=None, w0=None, inputs=()):
    """fn() gives the restructured tree of t; old: the signal (or word of a memory) that absent branches keep."""
    st.count('evaluations')
    st.state(key)
    before = [x.tostr() if x is not None else None for x in inputs]
    r = core.attempt(fn)
    if r[0] == 'exc':
        st.fail(key, 'raised %s: %s' % (r[1], r[2]), {'tree': before})
        return
    new = r[1]
    if [x.tostr() if x is not None else None for x in inputs] != before:
        st.fail(key, 'the tree it was given is changed', {'tree': before})
        return
    if new is not None and not isinstance(new, D.DFNode):
        st.fail(key, 'returned %r' % (new,), {'tree': before})
        return
    r = core.attempt(lambda: None if new is None else new.tostr())
    if r[0] == 'exc':
        st.fail(key, 'the result cannot be shown: %s: %s' % (r[1], r[2]), {'tree': before})
        return
    st.outcome(r[1])
    ev0, ev1 = dfv.Eval(WORDS, True), dfv.Eval(WORDS, False)
    names = set()
    for x in inputs:
        if x is not None:
            p13.uses(x, names)
    if old is not None:
        p13.uses(old, names)
    for env in p13.valuations(names, p13.few):
        st.count('transitions')
        try:
            v0 = t(ev0, env)
        except dfv.Skip:
            continue
        if old is not None:
            o = ev0.value(old, env)[0]
            v0 = ((v0[0] & ~v0[2]) | (o & v0[2]), v0[1], 0, v0[3])
        if v0[1] == dfv.mask(v0[3]):
            continue
        st.count('judged')
        st.count('traces')
        try:
            v1 = hold_all(v0[3]) if new is None else ev1.value(new, env)
            ok = dfv.same(v0, v1)
        except (dfv.Skip, dfv.Bad) as e:
            v1, ok = 'no value (%s)' % e, False
        if not ok:
            st.fail(key, 'gives %s; with %s the value was %s and is %s (value, unknown, held, width)' % (
                None if new is None else new.tostr(), {str(n): v for n, v in env.items()}, v0, v1), {'tree': before})
            return


def atoms():
    return [A, B, I("4'd5"), None]


def branches(conds, vals, depth):
    out = [v for v in vals]
    for d in range(depth):
        prev = list(out)
        out = list(vals)
        for c in conds:
            for t in prev:
                for f in prev:
                    if t is None and f is None:
                        continue
                    out.append(br(c, t, f))
    return out


def space_reorder(thorough):
    c1 = [C, S, op('Ulnot', C)]
    full = [x for x in branches(c1, [A, I("4'd5")], 1) if isinstance(x, D.DFBranch)]
    part = [x for x in branches(c1[:2], [A, B, None], 1) if isinstance(x, D.DFBranch)]
    nest = [br(C, br(S, A, B), I("4'd5")), br(C, A, br(S, B, I("4'd9"))), br(op('Eq', A, I("4'd1")), A, B), br(C, br(S, A, None), B), br(S, None, br(C, A, B))]
    objs = full + nest
    for x in objs + part:
        yield x
        for u in ('Uminus', 'Unot', 'Ulnot', 'Uor', 'Uxor'):
            yield op(u, x)
        yield sel(x, 2, 1)
        yield D.DFPointer(x, I('1'))
        yield D.DFPointer(A, x)
        yield D.DFSyscall('signed', (x,))
        yield D.DFSyscall('unsigned', (x,))
        for y in (A, I("2'd2"), C):
            for o in dfv.BINARY if x in full[:4] or x in nest else ('Plus', 'Minus', 'LessThan', 'Land'):
                yield op(o, x, y)
                yield op(o, y, x)
            yield D.DFConcat((x, y))
            yield D.DFConcat((y, x))
            yield D.DFConcat((y, x, C))
            yield D.DFConcat((y, op('Plus', x, y), C))
            yield br(x, y, B)
            yield br(C, x, y)
            yield br(C, y, x)
            yield br(S, op('And', x, y), sel(x, 1, 0))
            yield D.DFPartselect(A, I('2'), I('1'))
    for x, y in itertools.product(objs + (part if thorough else part[::3]), repeat=2):
        for o in ('Plus', 'Minus', 'Sll', 'Eq', 'Or', 'Lor'):
            yield op(o, x, y)
        yield D.DFConcat((x, y))
        yield D.DFConcat((C, x, y))
        yield br(x, y, A)
        yield br(x, B, y)
        yield D.DFPointer(x, y)
        if thorough:
            yield br(op('Land', x, y), A, B)
            yield op('Plus', op('Minus', x, I("4'd1")), y)
            yield sel(D.DFConcat((x, y)), 5, 2)
            for z in nest:
                yield D.DFConcat((x, y, z))
                yield br(z, x, y)
    # every operator as a condition, also as the one that a conditional condition chooses
    conds = [op(u, x) for u in dfv.UNARY for x in (A, DD, C)] + [op(o, x, y) for o in dfv.BINARY for x, y in ((A, B), (DD, C), (A, I("4'd2")), (C, S))]
    for q in conds:
        for t, f in ((A, B), (A, None), (None, B)):
            yield br(q, t, f)
            yield br(br(C, q, S), t, f)
            yield br(br(S, C, q), t, f)
        yield op('Plus', br(q, A, B), I("4'd1"))
        yield br(br(q, C, S), A, B)
        yield br(br(C, q, op('Ulnot', q)), A, B)
        yield br(q, br(q, A, B), I("4'd5"))
        yield br(op('Ulnot', q), br(q, A, B), I("4'd5"))
    for m, l in ((br(C, I('2'), I('3')), br(C, I('1'), I('2'))), (br(C, I('1'), I('1')), I('0'))):
        yield D.DFPartselect(A, m, l)


def space_replace(thorough):
    vals = [A, D.DFUndefined(4), I("4'd5"), None]
    l1 = [x for x in branches([C, S], vals, 1)]
    for x in l1:
        yield x
    seconds = [x for x in l1 if isinstance(x, D.DFBranch)]
    for x in (seconds if thorough else seconds[::2]):
        for v in vals:
            yield br(C, x, v)
            yield br(S, v, x)
    for x in (br(C, A, D.DFUndefined(4)), br(S, A, B)):
        for t in (op('Plus', x, A), op('Unot', x), sel(x, 2, 1), D.DFPointer(A, x), D.DFConcat((x, C)), D.DFConcat((C, A)),
                  D.DFSyscall('signed', (x,)), D.DFHighImpedance(4), D.DFConcat((D.DFUndefined(2), DD)), D.DFConcat((DD, D.DFUndefined(2))),
                  D.DFConcat((C, D.DFUndefined(2), S))):
            yield t
            yield br(S, t, B)


def space_words(thorough):
    """definitions of a word of a memory, which may read its words"""
    word = [D.DFPointer(KT, x) for x in (C, I('1'), op('Ulnot', C), S)]
    vals = word + [A, D.DFUndefined(4), None]
    for ptr in (C, I('1'), op('Ulnot', C), E(0)):
        l1 = branches([C, S, op('Eq', word[0], A), D.DFPointer(word[1], I('2'))], vals, 1)
        for t in l1:
            yield t, ptr
        for t in [x for x in l1 if isinstance(x, D.DFBranch)][::1 if thorough else 5]:
            yield br(S, word[2], t), ptr
            yield br(S, t, None), ptr
        for w in word:
            for t in (op('Plus', w, A), op('Plus', br(C, w, None), I("4'd1")), sel(w, 2, 1), D.DFConcat((sel(w, 1, 0), sel(A, 1, 0))),
                      D.DFPointer(KT, D.DFPointer(w, I('0'))), D.DFSyscall('unsigned', (w,))):
                yield t, ptr
                if not isinstance(t, D.DFPartselect):       # (as wide as the word)
                    yield br(S, None, t), ptr


def space_merge(thorough):
    vals = [A, I("4'd5"), None]
    l1 = branches([C, S, op('Ulnot', C)], vals, 1)
    l2 = [br(C, x, v) for x in l1 if isinstance(x, D.DFBranch) and x.condnode is not C for v in (B, None)] + [br(C, v, x) for x in l1 if isinstance(x, D.DFBranch) and x.condnode is S for v in (B, None)]
    one = l1 + (l2 if thorough else l2[::3])
    for x in one:
        for y in (one if thorough else l1 + l2[::5]):
            yield x, y


def later(x, y):
    """value of a signal assigned first by x and then by y"""
    def value(ev, env):
        r0 = hold_all(4) if x is None else ev.value(x, env)
        r1 = hold_all(4) if y is None else ev.value(y, env)
        h = r1[2]
        return ((r1[0] & ~h) | (r0[0] & h), (r1[1] & ~h) | (r0[1] & h), r0[2] & h, 4)
    return value


def run(ctx):
    th = ctx.thorough
    q = NAMES['a']

    def work(u, st):
        s, i, k = u
        if s == 'reorder':
            for j, t in enumerate(space_reorder(th)):
                if j % k == i:
                    judge('reorder ' + show(t), lambda ev, env: ev.value(t, env), lambda: reorder.reorder(t), st, inputs=[t])
        elif s == 'replace':
            for j, t in enumerate(space_replace(th)):
                if j % k == i:
                    judge('replace ' + show(t), lambda ev, env: hold_all(4) if t is None else ev.value(t, env),
                          lambda: replace.replaceUndefined(t, NAMES['b']), st, old=B, inputs=[t])
        elif s == 'words':
            for j, (t, ptr) in enumerate(space_words(th)):
                if j % k == i:
                    judge('replace in k[%s] %s' % (show(ptr), show(t)), lambda ev, env: hold_all(4) if t is None else ev.value(t, env),
                          lambda: replace.replaceUndefined(t, K, ptr), st, old=D.DFPointer(KT, ptr), inputs=[t, ptr])
        else:
            m = VerilogDataflowMerge('m', p13.terms(), {}, p13.terms(), {}, {})
            for j, (x, y) in enumerate(space_merge(th)):
                if j % k == i:
                    judge('merge %s ; %s' % (show(x), show(y)), later(x, y), lambda: m.mergeTree(x, y), st, inputs=[x, y])

    ctx.explore([(s, i, 16) for s in ('reorder', 'replace', 'words', 'merge') for i in range(16)], work)
    ctx.stats.count('nontrivial', ctx.stats.n['judged'])
    ctx.stats.sample('reorder ' + show(op('Plus', br(C, A, B), DD)))
    ctx.rule = ('every tree of branches (with and without absent arms) below operators, selections, concatenations and conditions to depth 2, and every '
                'pair of conditional definitions: reorder, replaceUndefined and mergeTree must give the same value, or keep the same bits, under every valuation')
    ctx.bounds = {'branch nesting': 3 if th else 2, 'signal widths': '1..4', 'valuations': 'all below 3 bits, 6 values at 4 bits'}
    ctx.assumptions = ['an operator over a value that is kept has no defined value and is not judged', 'the later of two definitions wins where it assigns']
