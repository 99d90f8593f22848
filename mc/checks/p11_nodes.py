"""P11: equality, hash, children and dumps of tree nodes.  P12: identifier collection and replacement."""
import copy
import inspect
import io
import itertools
import re

from mc import core, gen, lay, vlog, vp

HIDDEN = ('lineno', 'end_lineno')
# attributes of each class that a dump prints (and that equality, hash and dumps treat as plain values)
ATTRS = {'Source': ('name',), 'ModuleDef': ('name',), 'Port': ('name', 'type'), 'Identifier': ('name',), 'Supply': ('name', 'signed'),
         'Block': ('scope',), 'ParallelBlock': ('scope',), 'Sens': ('type',), 'InstanceList': ('module',), 'Instance': ('name', 'module'),
         'ParamArg': ('paramname',), 'PortArg': ('portname',), 'Function': ('name',), 'Task': ('name',), 'SystemCall': ('syscall',),
         'IdentifierScopeLabel': ('name', 'loop'), 'PragmaEntry': ('name',), 'Disable': ('dest',), 'EmbeddedCode': ('code',),
         'IntConst': ('value',), 'FloatConst': ('value',), 'StringConst': ('value',)}
for _c in ('Input', 'Output', 'Inout', 'Tri', 'Wire', 'Reg', 'Integer', 'Real', 'Genvar', 'Parameter', 'Localparam', 'Variable'):
    ATTRS[_c] = ('name', 'signed')
ORDER = {'Instance': ('array', 'parameterlist', 'portlist')}


def _A():
    import pyverilog.vparser.ast as A
    return A


def slots(cls):
    """Constructor arguments of a node class, in order."""
    return [p for p in inspect.signature(cls.__init__).parameters if p not in ('self', 'lineno')]


def held(n, all_of=False):
    """The nodes a node holds, in order (reference). The index of a scope label is printed as an attribute of the label
    (the tests of the repository fix that) and is not one of its children."""
    A = _A()
    c = type(n).__name__
    out = []
    names = ORDER.get(c) or [k for k in slots(type(n)) if k in vars(n)]
    for k in list(names) + [k for k in vars(n) if k not in names]:
        v = vars(n)[k]
        for x in (v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(x, A.Node) and (k != 'loop' or all_of):
                out.append(x)
    return out


def contents(n):
    """Structure and contents, positions dropped; an empty list counts as none."""
    A = _A()
    if isinstance(n, (list, tuple)):
        return tuple(contents(x) for x in n) or None
    if isinstance(n, A.Node):
        return (type(n).__name__,) + tuple((k, contents(v)) for k, v in sorted(vars(n).items()) if k not in HIDDEN)
    return (type(n).__name__, n)


def dump(n, depth, offset, attrnames, lines):
    """The text that show() prints (reference)."""
    a = [(k, vars(n)[k]) for k in ATTRS.get(type(n).__name__, ())]
    t = ' ' * (offset + 2 * depth) + type(n).__name__ + ': ' + ', '.join(('%s=%s' % (k, v)) if attrnames else '%s' % (v,) for k, v in a)
    if lines:
        t += ' (from %s to %s)' % (n.lineno, n.end_lineno) if hasattr(n, 'end_lineno') else ' (at %s)' % getattr(n, 'lineno', 'no line')
    out = t + '\n'
    for x in held(n):
        out += dump(x, depth + 1, offset, attrnames, lines)
    return out


def sample(x):
    """Values to put in a slot in place of x."""
    A = _A()
    if isinstance(x, bool):
        return [not x]
    if isinstance(x, str):
        return [x + 'z', None] if x else ['z']
    if x is None:
        return [A.Identifier('zz'), 'zz']
    if isinstance(x, A.Node):
        new = A.Identifier('zz') if not isinstance(x, A.Identifier) or x.name != 'zz' else A.IntConst('99')
        return [new, None]
    return []


def family(cls):
    """Classes with the same constructor."""
    A = _A()
    return [c for c in vars(A).values() if inspect.isclass(c) and issubclass(c, A.Node) and c is not cls and slots(c) == slots(cls)
            and c is not A.Node]


def variants(root):
    """Every tree that differs from root in one place: (description, tree)."""
    A = _A()

    def sites(n, path):
        yield path, n
        for k, v in sorted(vars(n).items()):
            for i, x in enumerate(v if isinstance(v, (list, tuple)) else [v]):
                if isinstance(x, A.Node):
                    for y in sites(x, path + ((k, i),)):
                        yield y
    for path, n in list(sites(root, ())):
        for k, v in sorted(vars(n).items()):
            if k in HIDDEN:
                continue
            if isinstance(v, (list, tuple)):
                alts = [v[:j] + v[j + 1:] for j in range(len(v))] + [tuple(v) + (A.Identifier('zz'),)]
                alts += [v[:j + 1] + v[j:] for j in range(len(v))]
                alts += [v[:j] + (v[j + 1], v[j]) + v[j + 2:] for j in range(len(v) - 1)] if isinstance(v, tuple) else []
                if any(not isinstance(a, type(v)) for a in alts):
                    alts = [type(v)(a) for a in alts]
            else:
                alts = sample(v)
            for a in alts:
                yield '%s.%s = %s' % (type(n).__name__, k, short(a)), edited(root, path, k, a)
            # move a value to an empty slot of the same node
            for k2, v2 in sorted(vars(n).items()):
                if v2 is None and isinstance(v, A.Node) and k2 != k:
                    t = edited(root, path, k, None)
                    yield '%s.%s moved to %s' % (type(n).__name__, k, k2), edited(t, path, k2, v)
                if k2 > k and isinstance(v, A.Node) and isinstance(v2, A.Node):
                    t = edited(root, path, k, v2)
                    yield '%s.%s swapped with %s' % (type(n).__name__, k, k2), edited(t, path, k2, v)
        for c in family(type(n)):
            m = copy.copy(n)
            m.__class__ = c
            yield '%s as %s' % (type(n).__name__, c.__name__), replaced(root, path, m)


def short(a):
    return repr(a) if not isinstance(a, (list, tuple)) else '%d elements' % len(a)


def replaced(root, path, new):
    if not path:
        return new
    r = copy.copy(root)
    (k, i), rest = path[0], path[1:]
    v = vars(r)[k]
    if isinstance(v, (list, tuple)):
        v = list(v)
        v[i] = replaced(v[i], rest, new)
        v = type(vars(r)[k])(v)
    else:
        v = replaced(v, rest, new)
    setattr(r, k, v)
    return r


def edited(root, path, k, value):
    n = root
    for a, i in path:
        v = vars(n)[a]
        n = v[i] if isinstance(v, (list, tuple)) else v
    m = copy.copy(n)
    setattr(m, k, value)
    return replaced(root, path, m)


def shifted(n, d):
    """A deep copy with other line numbers and lists in place of tuples."""
    A = _A()
    if isinstance(n, (list, tuple)):
        return [shifted(x, d) for x in n]
    if not isinstance(n, A.Node):
        return n
    m = copy.copy(n)
    for k, v in vars(n).items():
        setattr(m, k, v + d if k in HIDDEN and isinstance(v, int) else shifted(v, d))
    return m


def compare(a, b, ca, cb, st, what, src):
    r = core.attempt(lambda: (a == b, b == a, a != b, b != a))
    st.count('evaluations')
    st.count('traces')
    e = ca == cb
    if r != ('ok', (e, e, not e, not e)):
        st.fail('%s: %s' % (src, what), '%s trees: ==, ==, !=, != gives %r' % ('equal' if e else 'different', r), {'source': src})
        return
    if e:
        h = core.attempt(lambda: (hash(a), hash(b)))
        if h[0] != 'ok' or h[1][0] != h[1][1]:
            st.fail('%s: %s' % (src, what), 'hashes of equal trees: %r' % (h,), {'source': src})


def tree(toks):
    src = 'module m ( ) ; %s endmodule' % ' '.join(toks)
    r = core.attempt(vp.parse, src)
    return src, (r[1] if r[0] == 'ok' else None)


def nodes_of(n):
    yield n
    for x in held(n):
        for y in nodes_of(x):
            yield y


def inspect_tree(t, src, st, opts):
    """children(), show(), hash() of every node."""
    for n in nodes_of(t):
        r = core.attempt(lambda: [id(x) for x in n.children()])
        st.count('evaluations')
        if r != ('ok', [id(x) for x in held(n)]):
            st.fail('children %s in %s' % (type(n).__name__, src), 'children() is %r, the node holds %r' % (
                core.attempt(lambda: [type(x).__name__ for x in n.children()]), [type(x).__name__ for x in held(n)]), {'source': src})
        h = core.attempt(hash, n)
        if h[0] != 'ok':
            st.fail('hash %s in %s' % (type(n).__name__, src), repr(h), {'source': src})
    for offset, attrnames, lines in opts:
        def shown():
            b = io.StringIO()
            t.show(b, offset=offset, attrnames=attrnames, showlineno=lines)
            return b.getvalue()
        r = core.attempt(shown)
        st.count('evaluations')
        st.count('traces')
        want = dump(t, 0, offset, attrnames, lines)
        if r != ('ok', want):
            st.fail('show %s' % src, 'show(offset=%d, attrnames=%s, showlineno=%s) prints\n%s\nexpected\n%s' % (
                offset, attrnames, lines, r[-1], want), {'source': src})


OPTS = [(0, False, True), (0, True, True), (3, True, False), (2, False, False)]


def extra_trees():
    """Nodes that no text gives."""
    A = _A()
    I = A.Identifier
    w = A.Width(A.IntConst('7'), A.IntConst('0'))
    d = A.Dimensions((A.Length(A.IntConst('0'), A.IntConst('3')), A.Length(I('n'), A.IntConst('1'))))
    yield 'Port', A.Port('p', w, d, 'reg', lineno=3)
    yield 'Port-none', A.Port('p', None, None, None, lineno=3)
    yield 'EmbeddedCode', A.EmbeddedCode('assign x = y;', lineno=2)
    yield 'TaskCall', A.TaskCall(I('t'), (I('a'), A.IntConst('1')))
    yield 'Pragma', A.Pragma(A.PragmaEntry('full_case', A.IntConst('1')))
    yield 'ParallelBlock', A.ParallelBlock((A.SingleStatement(A.Disable('x')),), 'sc')
    yield 'Variable', A.Variable('v', w, True, d, I('q'))
    yield 'Value', A.Value(I('x'))
    yield 'Scope', I('x', A.IdentifierScope((A.IdentifierScopeLabel('u', A.Plus(I('i'), I('j'))), A.IdentifierScopeLabel('v'))))
    yield 'Assign', A.Assign(A.Lvalue(I('a')), A.Rvalue(I('b')), A.DelayStatement(I('d')), None)
    yield 'Subst', A.BlockingSubstitution(A.Lvalue(I('a')), A.Rvalue(I('b')), None, A.DelayStatement(I('d')))
    yield 'For', A.ForStatement(None, I('c'), None, A.Block(()))
    yield 'If', A.IfStatement(I('c'), None, A.Block((), 'b'))
    yield 'Instance', A.Instance('m', 'u', (A.PortArg('p', I('a')), A.PortArg('q', None)), (A.ParamArg('P', I('n')),), A.Length(I('k'), I('l')))
    for c in ('Input', 'Output', 'Inout', 'Wire', 'Reg', 'Tri', 'Integer', 'Real', 'Genvar'):
        yield c, getattr(A, c)('v', w, True, d, A.Rvalue(I('q')))


def run(ctx):
    vp.parser()
    t = ctx.thorough
    texts = lay.corpus(ctx.pick(40, 60))
    if not t:
        texts = lay.thin(texts, 1)
    units = [('text', ch) for ch in core.chunks(texts, 8)] + [('extra', None)]
    small = lay.thin(lay.corpus(14), ctx.pick(1, 3))
    blk = 60
    cut = [small[k:k + blk] for k in range(0, len(small), blk)]
    units += [('pairs', (a, b)) for a, b in itertools.combinations_with_replacement(range(len(cut)), 2)]

    def vary(src, r, st, full):
        c0 = contents(r)
        st.state(c0)
        compare(r, copy.deepcopy(r), c0, c0, st, 'deep copy', src)
        compare(r, shifted(r, 7), c0, c0, st, 'other line numbers, lists', src)
        for other in (None, 1, 'x', (), object()):
            q = core.attempt(lambda: (r == other, r != other))
            if q != ('ok', (False, True)):
                st.fail('%s against %r' % (src, other), repr(q))
        for what, v in variants(r):
            cv = contents(v)
            st.count('transitions')
            st.outcome((what, cv == c0))
            compare(r, v, c0, cv, st, what, src)
            if full:
                st.state(cv)
        inspect_tree(r, src, st, OPTS)

    def work(u, st):
        k, ch = u
        if k == 'text':
            for x in ch:
                src, r = tree(x)
                if r is None:
                    st.count('not parsed')
                    continue
                vary(src, r.description.definitions[0], st, t)
                inspect_tree(r, src, st, OPTS[:1])
            st.sample({'tree of': src})
        elif k == 'extra':
            for name, r in extra_trees():
                vary(name, r, st, True)
        else:
            trees = [[y for y in [tree(x) for x in cut[j]] if y[1] is not None] for j in ch]
            forms = [[(s, r.description.definitions[0].items[0], contents(r.description.definitions[0].items[0])) for s, r in tt
                      if r.description.definitions[0].items] for tt in trees]
            for (s1, a, ca), (s2, b, cb) in itertools.product(*forms):
                compare(a, b, ca, cb, st, 'compared with ' + s2, s1)
                st.count('transitions')
    ctx.rule = 'every single-place variation of every construct; all pairs of a set of items; dumps of all of them'
    ctx.bounds = {'texts': len(texts), 'items compared pairwise': len(small)}
    ctx.assumptions = ['an empty list of children and none count as the same']
    ctx.explore(units, work)


# ------------------------------------------------------------------------------------------------ P12

def ident_nodes(n, kinds):
    """Identifier nodes in the order of their place in the tree (reference): the index of a scope before the name."""
    A = _A()
    out = []
    for x in held(n, True):
        out += ident_nodes(x, kinds)
    if isinstance(n, A.Identifier):
        out.append(n)
    return out


def renamed(n, ids):
    """Reference replacement on contents()."""
    A = _A()
    if isinstance(n, (list, tuple)):
        return tuple(renamed(x, ids) for x in n) or None
    if isinstance(n, A.Node):
        d = {k: renamed(v, ids) for k, v in vars(n).items() if k not in HIDDEN}
        if isinstance(n, A.Identifier) and n.name in ids:
            d['name'] = ('str', ids[n.name])
        return (type(n).__name__,) + tuple(sorted(d.items()))
    return (type(n).__name__, n)


def with_names(tokens, names):
    """The text with its identifiers drawn in turn from a few names, so that maps hit some of them."""
    out, k = [], 0
    for i, x in enumerate(tokens):
        if re.match(r'^(a|b|c|x|y|z|i|n)$', x):
            out.append(names[k % len(names)])
            k += 1
        else:
            out.append(x)
    return out


def run_ident(ctx):
    vp.parser()
    t = ctx.thorough
    texts = lay.corpus(ctx.pick(40, 60))
    if not t:
        texts = lay.thin(texts, 2)
    targets = ['a', 'b', 'q', '\\e+1', '']
    maps = [dict(m) for k in range(0, 3) for ks in itertools.combinations(['a', 'b', 'c'][:ctx.pick(2, 3)], k)
            for m in itertools.product(*[[(x, y) for y in targets[:4]] for x in ks])]
    ems = list(gen.expr_models())
    units = [('text', ch) for ch in core.chunks(texts, 10)] + [('expr', ch) for ch in core.chunks(ems, 40)] + [('extra', None)]

    def ids_of(n):
        from pyverilog.utils.identifiervisitor import getIdentifiers
        return core.attempt(lambda: tuple(getIdentifiers(n)))

    def judge(key, make, st, ms):
        from pyverilog.utils.identifierreplace import replaceIdentifiers
        n = make()
        want = tuple(x.name for x in ident_nodes(n, None))
        got = ids_of(n)
        st.count('evaluations')
        st.count('traces')
        st.state(contents(n))
        if got != ('ok', want):
            st.fail('collect ' + key, 'identifiers %r, the tree holds %r' % (got, want), {'source': key})
        for m in ms:
            n = make()
            before = [(x.lineno, x.scope is None) for x in ident_nodes(n, None)]
            want = renamed(n, m)
            r = core.attempt(lambda: replaceIdentifiers(n, m))
            st.count('evaluations')
            st.count('traces')
            st.count('transitions', max(1, len(m)))
            if r[0] != 'ok':
                st.fail('replace %r in %s' % (m, key), repr(r), {'source': key})
                continue
            got = contents(r[1])
            st.outcome((m, len(want)))
            if normal(got) != normal(want):
                st.fail('replace %r in %s' % (m, key), vp.diff(normal(want), normal(got)), {'source': key, 'map': m})
                continue
            after = [(x.lineno, x.scope is None) for x in ident_nodes(r[1], None)]
            if after != before:
                st.fail('replace %r in %s' % (m, key), 'lines/scopes of the identifiers: %r, before %r' % (after, before), {'source': key})

    def normal(c):
        return c if not isinstance(c, tuple) else tuple(normal(x) for x in (sorted(c[1:], key=repr) if c and isinstance(c[0], str) and len(
            c) > 1 and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) for y in c[1:]) else c))

    def work(u, st):
        k, ch = u
        if k == 'text':
            for x in ch:
                for names in (['a', 'b', 'c'], ['b', 'a', 'a']):
                    toks = with_names(x, names)
                    src, r = tree(toks)
                    if r is None:
                        st.count('not parsed')
                        continue
                    judge(src, lambda: vp.parse(src).description.definitions[0], st, maps if names[0] == 'a' else maps[::4])
            st.sample({'tree of': ' '.join(ch[0])})
        elif k == 'expr':
            for e in ch:
                judge(repr(e), lambda: vlog.bexpr(e), st, maps)
            st.sample({'expression': repr(ch[0])})
        else:
            for j, (name, n) in enumerate(extra_trees()):
                judge(name, lambda: list(extra_trees())[j][1], st, maps + [{'i': 'j', 'j': 'i'}, {'x': 'i', 'n': 'x', 'q': 'd', 'd': 'q'}])
            A = _A()

            def shared():
                a, s = A.Identifier('a'), A.Plus(A.Identifier('b'), A.Identifier('a'))
                return A.Concat((a, s, A.Minus(a, s), s))
            judge('shared nodes', shared, st, maps)
    ctx.rule = 'every construct and expression model x every map of up to two names onto old, new and exchanged names'
    ctx.bounds = {'texts': len(texts), 'expressions': len(ems), 'maps': len(maps)}
    ctx.assumptions = ['an identifier node held by several nodes (parameter lists of instances) counts once per holder when collecting']
    ctx.explore(units, work)
