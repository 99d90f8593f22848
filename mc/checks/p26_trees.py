"""P26: dataflow trees, terms and bindings compare, hash, print and give back their parts exactly."""
import copy
import itertools

from mc import core, vp

# A tree is described by a nested tuple; build() makes the real objects from it, always new ones.
#   ('t', (labels...))  ('i', text)  ('f', text)  ('s', text)  ('v', value, width, isfloat, isstring)
#   ('x', width)  ('z', width)  ('o', operator, args)  ('p', var, msb, lsb)  ('@', var, ptr)
#   ('c', args)  ('b', cond, true, false)  ('d', next)  ('$', name, args)
UN = ('Uplus', 'Uminus', 'Ulnot', 'Unot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
BIN = ('Power', 'Times', 'Divide', 'Mod', 'Plus', 'Minus', 'Sll', 'Srl', 'Sla', 'Sra', 'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq',
       'Eq', 'NotEq', 'Eql', 'NotEql', 'And', 'Xor', 'Xnor', 'Or', 'Land', 'Lor')


def chain(path):
    from pyverilog.utils.scope import ScopeChain, ScopeLabel
    return ScopeChain([ScopeLabel(n, k, l) for n, k, l in path])


def build(d):
    from pyverilog.dataflow import dataflow as df
    if d is None:
        return None
    k = d[0]
    b = build
    if k == 't':
        return df.DFTerminal(chain(d[1]))
    if k in 'ifs':
        return {'i': df.DFIntConst, 'f': df.DFFloatConst, 's': df.DFStringConst}[k](d[1])
    if k == 'v':
        return df.DFEvalValue(*d[1:])
    if k in 'xz':
        return {'x': df.DFUndefined, 'z': df.DFHighImpedance}[k](d[1])
    if k == 'o':
        return df.DFOperator(tuple(b(x) for x in d[2]), d[1])
    if k == 'p':
        return df.DFPartselect(b(d[1]), b(d[2]), b(d[3]))
    if k == '@':
        return df.DFPointer(b(d[1]), b(d[2]))
    if k == 'c':
        return df.DFConcat(tuple(b(x) for x in d[1]))
    if k == 'b':
        return df.DFBranch(b(d[1]), b(d[2]), b(d[3]))
    if k == 'd':
        return df.DFDelay(b(d[1]))
    if k == '$':
        return df.DFSyscall(d[1], tuple(b(x) for x in d[2]))
    raise AssertionError(d)


def parts(d):
    """the descriptions of the parts of a tree, in the order written"""
    k = d[0]
    if k in 'tifsvxz':
        return []
    if k in 'o$':
        return list(d[2])
    if k == 'c':
        return list(d[1])
    return [x for x in d[1:] if x is not None]


def name(n, *more):
    return ('t', (('m', 'module', None),) + tuple(more) + ((n, 'signal', None),))


A, Bn, M = name('a'), name('b'), name('mem')
DEEP = [name('a', ('u', 'module', None)), name('a', ('blk', 'block', None)), name('a', ('blk', 'for', 0)), name('a', ('blk', 'for', 1)), name('a', ('f', 'functioncall', None))]
LEAVES = [A, Bn] + DEEP + [('i', '1'), ('i', '2'), ('i', "1'd1"), ('i', "4'b1x0z"), ('i', "8'shff"), ('f', '1.5'), ('f', '1e3'), ('s', '1'), ('s', 'ab'),
          ('v', 1, 32, False, False), ('v', 2, 32, False, False), ('v', 1, 8, False, False), ('v', -1, 32, False, False), ('v', -1, 4, False, False), ('v', 1.5, 32, True, False), ('v', 1.0, 32, True, False), ('v', 2.0, 32, True, False), ('v', '1', 32, False, True), ('v', '', 32, False, True), ('v', -2.5, 32, True, False), ('v', 'ab', 32, False, True),
          ('x', 32), ('x', 8), ('z', 32), ('z', 8)]


def nodes(args, few, ops, th):
    """all trees with one more level over args; three-part nodes over few"""
    for o in ops[0]:
        for p in args:
            yield ('o', o, (p,))
    for o in ops[1]:
        for p, q in itertools.product(args if th else few, repeat=2):
            yield ('o', o, (p, q))
    for p, q, r in itertools.product(few, repeat=3):
        yield ('p', p, q, r)
        yield ('b', p, q, r)
        yield ('c', (p, q, r))
        yield ('$', 'f', (p, q, r))
    for p, q in itertools.product(few, repeat=2):
        yield ('@', p, q)
        yield ('c', (p, q))
        yield ('$', 'f', (p, q))
        for n in 'bcd':
            if n == 'b':
                yield ('b', p, q, None)
                yield ('b', p, None, q)
                yield ('b', None, p, q)
    for p in args:
        yield ('c', (p,))
        yield ('d', p)
        yield ('$', 'f', (p,))
        yield ('$', 'g', (p,))
        yield ('b', p, None, None)
    yield ('$', 'f', ())
    yield ('$', 'g', ())


def trees(th):
    few = [A, Bn, ('i', '1'), ('v', 1, 8, False, False)]
    one = list(nodes(LEAVES, few + ([DEEP[0], ('x', 8)] if th else []), (UN, BIN), th))
    seen = [A, ('i', '1')]
    rep = [('o', 'Uminus', (A,)), ('o', 'Unot', (A,)), ('o', 'Minus', (A, Bn)), ('o', 'Minus', (Bn, A)), ('o', 'Plus', (A, Bn)), ('p', A, ('i', '1'), ('i', '0')), ('@', A, ('i', '1')), ('@', M, Bn), ('c', (A, Bn)), ('c', (A,)),
           ('b', A, Bn, A), ('b', A, Bn, None), ('b', A, None, Bn), ('d', A), ('$', 'f', (A,)), ('$', 'f', ())]
    two = list(nodes(rep, seen + rep[2:3] + rep[5:7] + rep[8:9] + rep[10:12] + (rep[13:] if th else []), (('Uminus', 'Uand'), ('Minus', 'Sll', 'Land')), True))
    out = []
    for d in LEAVES + [M] + rep + one + two:
        out.append(d)
    return list(dict.fromkeys(out))


# -- printing as code and reading it back ------------------------------------------------
def flat(path):
    """the flat name that stands for a hierarchical one in generated code"""
    r = []
    for n, k, l in path:
        if k in ('for',):
            r.append('')
        else:
            r.append(n)
    return r


def writable(d, top=True):
    """can Verilog write this tree as an expression?"""
    k = d[0]
    if k in 'ti':
        return True
    if k in 'fs':
        return True
    if k == 'v':
        return True
    if k in 'xz':
        return True
    if k == 'o':
        return all(writable(x) for x in d[2])
    if k == 'p':
        return (d[1][0] == 't' or d[1][0] == '@' and d[1][1][0] == 't' and writable(d[1][2])) and d[2][0] in 'iv' and d[3][0] in 'iv'
    if k == '@':
        return (d[1][0] == 't' or d[1][0] == '@' and d[1][1][0] == 't' and writable(d[1][2])) and writable(d[2])
    if k == 'c':
        return all(writable(x) for x in d[1])
    if k == 'b':
        return all(x is None or writable(x) for x in d[1:]) and d[1] is not None and (d[2] is not None or d[3] is not None)
    if k == '$':
        return all(writable(x) for x in d[2])
    return False


def bits(text):
    """what a number in a source text denotes: (digits by value or pattern, width, signed)"""
    from mc import dfv
    r = tuple(dfv.literal(text))
    return ('n',) + r + ((text,) if r[0] is None else ())


def ideal(d, dest, names):
    """a tree as the expression it stands for, with absent parts of a condition standing for the target"""
    k = d[0]
    if k == 't':
        return ('id', names[d])
    if k == 'i':
        return bits(d[1])
    if k == 'f':
        return ('r', float(d[1]))
    if k == 's':
        return ('str', d[1])
    if k == 'v':
        if d[4]:
            return ('str', d[1])
        if d[3]:
            v = ('r', abs(d[1]))
        else:
            v = bits("%s'%sd%d" % ('' if d[2] == 32 else d[2], 's' if d[1] < 0 else '', abs(d[1])))
        return ('Uminus', v) if d[1] < 0 else v
    if k in 'xz':
        return bits("%s'd%s" % ('' if d[1] == 32 else d[1], k))
    if k == 'o':
        if d[1] == 'Uplus':                # (the parser reads +x as x)
            return ideal(d[2][0], dest, names)
        return (d[1],) + tuple(ideal(x, dest, names) for x in d[2])
    if k == 'p':
        m, l = ideal(d[2], dest, names), ideal(d[3], dest, names)
        return ('@', ideal(d[1], dest, names), m) if m == l else (':', ideal(d[1], dest, names), m, l)
    if k == '@':
        return ('@', ideal(d[1], dest, names), ideal(d[2], dest, names))
    if k == 'c':
        return ('{',) + tuple(ideal(x, dest, names) for x in d[1])
    if k == 'b':
        return ('?', ideal(d[1], dest, names)) + tuple(dest if x is None else ideal(x, dest, names) for x in d[2:])
    if k == '$':
        return ('$', d[1]) + tuple(ideal(x, dest, names) for x in d[2])


def read(n):
    """the same form of an expression read back by the real parser"""
    from pyverilog.vparser import ast as va
    c = n.__class__.__name__
    if c == 'Identifier':
        return ('id', n.name)
    if c == 'IntConst':
        return bits(n.value)
    if c == 'FloatConst':
        return ('r', float(n.value))
    if c == 'StringConst':
        return ('str', n.value)
    if c == 'Cond':
        return ('?', read(n.cond), read(n.true_value), read(n.false_value))
    if isinstance(n, va.Operator):
        return (c,) + tuple(read(x) for x in n.children())
    if c == 'Partselect':
        return (':', read(n.var), read(n.msb), read(n.lsb))
    if c == 'Pointer':
        return ('@', read(n.var), read(n.ptr))
    if c in ('Concat', 'LConcat'):
        return ('{',) + tuple(read(x) for x in n.list)
    if c == 'SystemCall':
        return ('$', n.syscall) + tuple(read(x) for x in n.args)
    if c in ('Rvalue', 'Lvalue'):
        return read(n.var)
    raise ValueError(c)


def readstmt(n):
    c = n.__class__.__name__
    if c == 'Block':
        return tuple(readstmt(x) for x in n.statements)
    if c == 'IfStatement':
        return ('if', read(n.cond), readstmt(n.true_statement) if n.true_statement is not None else (), readstmt(n.false_statement) if n.false_statement is not None else None)
    if c in ('BlockingSubstitution', 'NonblockingSubstitution'):
        return ('=' if c[0] == 'B' else '<=', read(n.left), read(n.right))
    raise ValueError(c)


def idealstmt(d, op, dest, names):
    """a tree as the statements that assign it: conditions become if statements"""
    if d[0] != 'b':
        return ((op, dest, ideal(d, dest, names)),)
    one = lambda x: () if x is None else idealstmt(x, op, dest, names)
    return (('if', ideal(d[1], dest, names), one(d[2]), None if d[3] is None else one(d[3])),)


def code_items(text):
    src = vp.parse('module q(); %s endmodule' % text)
    return src.description.definitions[0].items


NAMES = {}


def flatten():
    """each name printed as code is its own; the table is what the real code prints"""
    for d in [A, Bn, M] + DEEP:
        NAMES[d] = build(d).tocode('y')


def legal(t):
    return t and (t[0].isalpha() or t[0] == '_') and all(ch.isalnum() or ch == '_' for ch in t)


def judge_tree(d, st):
    key = 'tree ' + repr(d)
    st.count('evaluations')
    n = build(d)
    k = core.attempt(lambda: tuple(n.children()))
    want = sorted(repr(x) for x in parts(d))
    if k[0] == 'exc' or sorted(map(describe, k[1])) != want:
        st.fail(key, 'children() gives %s, the parts are %s' % (k[1:], want))
        return
    for o in (build(d), copy.deepcopy(n)):
        q = core.attempt(lambda: (n == o, o == n, n != o, o != n, hash(n) == hash(o), n.tostr() == o.tostr()))
        if q != ('ok', (True, True, False, False, True, True)):
            st.fail(key, 'a second tree of the same structure: (==, ==, !=, !=, same hash, same text) is %s' % (q[1:],))
            return
    if n == 0 or n == 'a' or n == None or not (n != 1):  # noqa
        st.fail(key, 'equal to something that is no tree')
        return
    st.state(d)
    if not writable(d):
        return
    st.count('traces')
    dest = ('id', 'y')
    q = core.attempt(lambda: n.tocode('y'))
    if q[0] == 'exc':
        st.fail(key, 'tocode raised %s: %s' % q[1:])
        return
    r = core.attempt(lambda: read(code_items('assign y = %s;' % q[1])[0].right))
    w = ideal(d, dest, NAMES)
    if r != ('ok', w):
        st.fail(key, 'printed as code it is %r, which reads back as %s, not %s' % (q[1], r[1:], w))
        return
    st.outcome(q[1])


def describe(n):
    """the description of a real tree"""
    c = n.__class__.__name__
    tup = lambda xs: tuple(eval(describe(x)) for x in xs)  # noqa
    one = lambda x: None if x is None else eval(describe(x))  # noqa
    if c == 'DFTerminal':
        return repr(('t', tuple((l.scopename, l.scopetype, l.scopeloop) for l in n.name)))
    if c in ('DFIntConst', 'DFFloatConst', 'DFStringConst'):
        return repr((c[2].lower(), n.value))
    if c == 'DFEvalValue':
        return repr(('v', n.value, n.width, n.isfloat, n.isstring))
    if c in ('DFUndefined', 'DFHighImpedance'):
        return repr(('x' if c == 'DFUndefined' else 'z', n.width))
    if c == 'DFOperator':
        return repr(('o', n.operator, tup(n.nextnodes)))
    if c == 'DFPartselect':
        return repr(('p', one(n.var), one(n.msb), one(n.lsb)))
    if c == 'DFPointer':
        return repr(('@', one(n.var), one(n.ptr)))
    if c == 'DFConcat':
        return repr(('c', tup(n.nextnodes)))
    if c == 'DFBranch':
        return repr(('b', one(n.condnode), one(n.truenode), one(n.falsenode)))
    if c == 'DFDelay':
        return repr(('d', one(n.nextnode)))
    if c == 'DFSyscall':
        return repr(('$', n.syscall, tup(n.nextnodes)))
    raise ValueError(c)


def judge_pairs(ds, lo, hi, st):
    """ds: descriptions; all pairs with the first in [lo, hi)"""
    real = [build(d) for d in ds]
    texts = {}
    for i in range(lo, hi):
        x = real[i]
        for j in range(i + 1, len(ds)):
            y = real[j]
            st.n['transitions'] += 1
            if x == y or y == x or not x != y or not y != x:
                st.fail('pair %r %r' % (ds[i], ds[j]), 'two different trees compare equal')
    if lo == 0:
        for d, x in zip(ds, real):
            t = x.tostr()
            st.count('transitions')
            if t in texts:
                st.fail('text %r %r' % (texts[t], d), 'two different trees print alike: %s' % t)
            texts[t] = d
        table = {x: d for x, d in zip(real, ds)}
        if len(table) != len(ds) or any(table.get(build(d)) != d for d in ds):
            st.fail('as keys', 'as keys of a dictionary the trees do not find their own entries')


# -- terms ---------------------------------------------------------------------------------
TYPES = [('Input',), ('Output',), ('Inout',), ('Wire',), ('Reg',), ('Integer',), ('Input', 'Wire'), ('Output', 'Wire'), ('Output', 'Reg'), ('Inout', 'Wire'), ('Parameter',), ('Localparam',), ('Genvar',), ('Function',), ('Rename',), ('Tri',), ('Supply',), ()]
I = lambda v: ('i', str(v))
E = lambda v: ('v', v, 32, False, False)
RANGES = [(None, None), (I(3), I(0)), (I(0), I(3)), (E(3), E(0)), (('o', 'Minus', (A, I(1))), I(0)), (I(0), I(0))]
DIMS = [None, ((I(0), I(3)),), ((I(3), I(0)),), ((I(0), I(3)), (I(0), I(1))), ((E(0), E(3)),)]
WHERE = [(('m', 'module', None), ('a', 'signal', None)), (('m', 'module', None), ('b', 'signal', None)), (('m', 'module', None), ('u', 'module', None), ('a', 'signal', None)), (('m', 'module', None), ('blk', 'block', None), ('a', 'signal', None)), (('m', 'module', None), ('g', 'for', 1), ('a', 'signal', None))]


def mkterm(d):
    from pyverilog.dataflow.dataflow import Term
    w, ty, (m, l), dims = d
    return Term(chain(w), set(ty), build(m), build(l), None if dims is None else [(build(x), build(y)) for x, y in dims])


def term_space(th):
    for w, ty, r, dm in itertools.product(WHERE, TYPES, RANGES, DIMS):
        if th or w in WHERE[:1] + WHERE[2:3] or (r, dm) in ((RANGES[0], DIMS[0]), (RANGES[1], DIMS[1])):
            yield (w, ty, r, dm)


def kind_of(d):
    """what the generated code must declare: direction (ports of the top module only) and kind"""
    w, ty, r, dm = d
    top = len(w) == 2
    dirs = [t for t in ty if t in ('Input', 'Output', 'Inout')]
    kind = 'Integer' if 'Integer' in ty else 'Tri' if 'Tri' in ty else 'Reg' if 'Reg' in ty else 'Wire'
    return (dirs[0] if dirs and top else None), kind


def judge_term(d, st):
    key = 'term ' + repr(d)
    st.count('evaluations')
    t, u = mkterm(d), mkterm(d)
    q = core.attempt(lambda: (t == u, t != u, hash(t) == hash(u), t.tostr() == u.tostr(), {t: 1}.get(u)))
    if q != ('ok', (True, False, True, True, 1)):
        st.fail(key, 'a second term with the same parts: (==, !=, same hash, same text, found as a key) is %s' % (q[1:],))
        return
    st.state(d)
    w, ty, (m, l), dims = d
    if not ty or set(ty) & {'Parameter', 'Localparam', 'Genvar'} or 'Integer' in ty and (m is not None or dims is not None) or dims is not None and (set(ty) & {'Input', 'Output', 'Inout'} and len(w) == 2):
        return
    st.count('traces')
    q = core.attempt(lambda: t.tocode())
    if q[0] == 'exc':
        st.fail(key, 'tocode raised %s: %s' % q[1:])
        return
    dr, kind = kind_of(d)
    want = {(c, flat_name(w), (bits('31'), bits('0')) if kind == 'Integer' else None if m is None else (ideal(m, None, NAMES), ideal(l, None, NAMES)), None if dims is None else tuple((ideal(x, None, NAMES), ideal(y, None, NAMES)) for x, y in dims)) for c in ([dr] if dr else []) + ([kind] if kind != 'Wire' or not dr or 'Wire' in ty else [])}

    def back():
        r = set()
        for it in code_items(q[1]):
            for v in it.list:
                r.add((v.__class__.__name__, v.name, None if v.width is None else (read(v.width.msb), read(v.width.lsb)), None if v.dimensions is None else tuple((read(x.msb), read(x.lsb)) for x in v.dimensions.lengths)))
        return r
    r = core.attempt(back)
    if r != ('ok', want):
        st.fail(key, 'printed as code it is %r, which declares %s, not %s' % (q[1], r[1:], want))
        return
    st.outcome(q[1])


def flat_name(path):
    return chain(path).tocode()


# -- bindings ------------------------------------------------------------------------------
BT = [A, ('o', 'Plus', (A, Bn)), ('b', A, Bn, None), ('b', A, None, Bn), ('b', A, Bn, M), ('b', A, ('b', Bn, A, None), ('b', M, None, A)), ('b', A, ('b', Bn, M, A), None), ('c', (A, Bn)), ('o', 'Minus', (('b', A, Bn, M), A)), ('b', A, ('o', 'Plus', (('b', Bn, M, None), A)), ('o', 'Plus', (('b', Bn, None, M), A))), ('b', A, None, ('c', (('b', Bn, M, None), ('b', Bn, None, A)))),
      ('b', A, ('b', Bn, ('o', 'Minus', (('b', M, None, A), A)), None), ('b', M, None, ('o', 'Unot', (('b', Bn, None, A),))))]
CK, RS = (('m', 'module', None), ('CLK', 'signal', None)), (('m', 'module', None), ('RST', 'signal', None))
ALW = [None, (None, None, 0, None, None, 0), (CK, 'posedge', 0, None, None, 0), (CK, 'negedge', 0, None, None, 0), (CK, 'posedge', 2, None, None, 0), (CK, 'posedge', 0, RS, 'posedge', 0), (CK, 'posedge', 0, RS, 'negedge', 0), (CK, 'negedge', 1, RS, 'negedge', 3)]
PTS = [(None, None, None), (I(1), I(0), None), (I(1), I(1), None), (E(2), E(2), None), (None, None, I(2)), (None, None, A), (I(1), I(0), A), (I(0), I(0), Bn)]


def mkbind(d):
    from pyverilog.dataflow.dataflow import Bind
    from pyverilog.dataflow.visit import AlwaysInfo
    tree, w, (m, l, p), alw, par = d
    ai = None
    if alw is not None:
        ai = AlwaysInfo(*[chain(x) if isinstance(x, tuple) else x for x in alw])
    return Bind(build(tree), chain(w), build(m), build(l), build(p), ai, par)


def bind_space(th):
    dests = [WHERE[3], WHERE[1]]
    for n, (tree, w, pt, alw) in enumerate(itertools.product(BT, dests, PTS, ALW)):
        yield (tree, w, pt, alw, '')
    for tree, par in itertools.product(BT, ('parameter', 'localparam')):
        yield (tree, WHERE[1], PTS[0], None, par)


def judge_bind(d, st):
    key = 'bind ' + repr(d)
    st.count('evaluations')
    b, c = mkbind(d), mkbind(d)
    tree, w, (m, l, p), alw, par = d
    q = core.attempt(lambda: (b == c, b != c, hash(b) == hash(c), b.tostr() == c.tostr(), {b: 1}.get(c)))
    if q != ('ok', (True, False, True, True, 1)):
        st.fail(key, 'a second binding with the same parts: (==, !=, same hash, same text, found as a key) is %s' % (q[1:],))
        return
    comb = alw is None or alw[0] is None
    got = core.attempt(lambda: (b.isCombination(), b.isClockEdge(), b.getClockName(), b.getClockEdge(), b.getClockBit(), b.getResetName(), b.getResetEdge(), b.getResetBit(), b.getSenslist()))
    nm = lambda x: chain(x) if isinstance(x, tuple) else x
    want = (comb, not comb) + (('',) * 7 if alw is None else tuple(map(nm, alw)) + ((),))
    if got != ('ok', want):
        st.fail(key, 'its clock and reset are reported as %s, they are %s' % (got[1:], want))
        return
    st.state(d)
    st.count('traces')
    q = core.attempt(lambda: b.tocode())
    if q[0] == 'exc':
        st.fail(key, 'tocode raised %s: %s' % q[1:])
        return
    dest = ('id', flat_name(w))
    if p is not None:
        dest = ('@', dest, ideal(p, None, NAMES))
    if m is not None:
        x, y = ideal(m, None, NAMES), ideal(l, None, NAMES)
        dest = ('@', dest, x) if x == y else (':', dest, x, y)

    def back():
        it = code_items(q[1])
        assert len(it) == 1
        it = it[0]
        k = it.__class__.__name__
        if k == 'Assign':
            return ('assign', read(it.left), read(it.right))
        if k == 'Decl':
            v = it.list[0]
            return (v.__class__.__name__.lower(), v.name, read(v.value))
        if k == 'Always':
            ss = it.sens_list.list
            return ('always', tuple((s.type, None if s.sig is None else read(s.sig)) for s in ss), readstmt(it.statement))
        raise ValueError(k)
    if par:
        w_ = (par, dest[1], ideal(tree, dest, NAMES))
    elif alw is None:
        w_ = ('assign', dest, ideal(tree, dest, NAMES))
    else:
        sg = lambda n, k: ('@', ('id', flat_name(n)), bits(str(k))) if k else ('id', flat_name(n))
        ev = (('all', None),) if comb else ((alw[1], sg(alw[0], alw[2])),) + (((alw[4], sg(alw[3], alw[5])),) if alw[3] else ())
        w_ = ('always', ev, idealstmt(tree, '=' if comb else '<=', dest, NAMES))
    r = core.attempt(back)
    if r != ('ok', w_):
        st.fail(key, 'printed as code it is %r, which reads back as %s, not %s' % (q[1], r[1:], w_))
        return
    st.outcome(q[1])


def judge_objects(make, ds, lo, hi, st, what):
    real = [make(d) for d in ds]
    for i in range(lo, hi):
        x = real[i]
        for j in range(i + 1, len(ds)):
            st.n['transitions'] += 1
            if x == real[j] or not x != real[j]:
                st.fail('pair %r %r' % (ds[i], ds[j]), 'two different %ss compare equal' % what)


# -- collecting declarations and bindings ------------------------------------------------
def judge_collect(th, st):
    """every order of the declarations of one name gives the same term; bindings of different parts are all kept"""
    from pyverilog.dataflow.dataflow import DataFlow
    nm = WHERE[0]
    decls = [(nm, ('Output',), (None, None), None), (nm, ('Reg',), RANGES[1], None), (nm, ('Wire',), (None, None), None), (nm, ('Reg',), (None, None), DIMS[1]), (nm, ('Input',), RANGES[1], None), (nm, ('Output',), RANGES[1], None)]
    for n in (1, 2, 3):
        for ds in itertools.permutations(decls, n):
            st.count('evaluations')
            flow = DataFlow()
            for d in ds:
                flow.addTerm(chain(nm), mkterm(d))
            other = (WHERE[1], ('Wire',), (None, None), None)
            flow.addTerm(chain(WHERE[1]), mkterm(other))
            want = (nm, tuple({t for d in ds for t in d[1]}), next((d[2] for d in ds if d[2][0] is not None), (None, None)), next((d[3] for d in ds if d[3] is not None), None))
            if not (flow.hasTerm(chain(nm)) and flow.getTerm(chain(nm)) == mkterm(want) and len(flow.getTerms()) == 2 and flow.getTerm(chain(WHERE[1])) == mkterm(other) and not flow.hasTerm(chain(WHERE[2]))):
                st.fail('declarations %r' % (ds,), 'declared together they give %s, not %s' % (flow.getTerm(chain(nm)).tostr(), mkterm(want).tostr()))
            st.state(('decl', ds))
    binds = [(A, WHERE[1], p, ALW[2], '') for p in PTS]
    for n in (1, 2, 3) + ((4,) if th else ()):
        for bs in itertools.permutations(binds, n):
            st.count('evaluations')
            flow = DataFlow()
            for d in bs:
                flow.addBind(chain(WHERE[1]), mkbind(d))
            got = flow.getBindlist(chain(WHERE[1]))
            if list(got) != [mkbind(d) for d in bs] or flow.getBindlist(chain(WHERE[0])) != () or list(flow.getBinddict()) != [chain(WHERE[1])]:
                st.fail('bindings %r' % (bs,), 'bindings of different parts are not all kept in order: %s' % [b.tostr() for b in got])
            st.state(('bind', bs))


def run(ctx):
    th = ctx.thorough
    ts, tm, bd = trees(th), list(term_space(th)), list(bind_space(th))
    with core.quiet():
        vp.parser()
        flatten()
    bad = [d for d, t in NAMES.items() if not legal(t)]
    if bad or len(set(NAMES.values())) != len(NAMES):
        ctx.stats.fail('names', 'hierarchical names do not print as different legal names in code: %s' % NAMES)

    def work(u, st):
        k, i, n = u
        if k == 'trees':
            for d in ts[i::n]:
                judge_tree(d, st)
        elif k == 'terms':
            for d in tm[i::n]:
                judge_term(d, st)
        elif k == 'binds':
            for d in bd[i::n]:
                judge_bind(d, st)
        elif k == 'collect':
            judge_collect(th, st)
        else:
            ds = {'tree': ts, 'term': tm, 'bind': bd}[k]
            cut = [int(len(ds) * (1 - (1 - x / n) ** 0.5)) for x in range(n + 1)]
            cut[n] = len(ds)
            if k == 'tree':
                judge_pairs(ds, cut[i], cut[i + 1], st)
            else:
                judge_objects(mkterm if k == 'term' else mkbind, ds, cut[i], cut[i + 1], st, {'term': 'term', 'bind': 'binding'}[k])

    with core.quiet():
        ctx.explore([(k, i, 16) for k in ('trees', 'terms', 'binds', 'tree', 'term', 'bind') for i in range(16)] + [('collect', 0, 1)], work)
    ctx.stats.count('nontrivial', ctx.stats.n['transitions'])
    ctx.stats.sample(repr(ts[len(ts) // 2]))
    ctx.rule = ('one state is one tree, term or binding, built twice; its transitions are its comparisons with every other one of the space; every one that Verilog can write is printed as code, '
                'read back by the real parser and compared with what it stands for; distinct_observed_outcomes are different printed codes')
    ctx.bounds = {'trees': '%d: %d leaves, all nodes over them (all operators), all nodes over 16 nodes' % (len(ts), len(LEAVES)), 'terms': '%d: %d kinds x ranges x dimensions x scopes' % (len(tm), len(TYPES)),
                  'bindings': '%d: trees x targets (parts, words, bits of words) x %d clock and reset forms' % (len(bd), len(ALW)), 'pairs': 'all', 'collecting': 'all orders of up to 3 declarations of one name and of up to %d bindings' % (4 if th else 3)}
    ctx.assumptions = ['the parser reads expressions correctly (P01)', 'names that are printed flat do not collide with each other (joined by underscores)']
