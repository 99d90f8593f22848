"""P04: code generated from a parsed source denotes the same source (round trip), and generation is idempotent.
P05: code generated from an AST built by hand denotes that AST."""
import itertools

from mc import core, gen, vlog, vp
from mc.gen import i, v, X0, FOR_PRE, FOR_COND, FOR_POST

Y = v('y')

# every place in a module where an expression can stand (model item with the expression in it)
CTX = [
    lambda e: ('assign', Y, e, None, None),
    lambda e: ('initial', ('ba', Y, e, None, None)),
    lambda e: ('always', 'Always', gen.SENS[1], ('nba', Y, e, None, None)),
    lambda e: ('initial', ('if', e, X0, None)),
    lambda e: ('initial', ('while', e, X0)),
    lambda e: ('initial', ('wait', e, X0)),
    lambda e: ('initial', ('wait', e, None)),
    lambda e: ('initial', ('case', 'CaseStatement', e, (((i(1),), X0),))),
    lambda e: ('initial', ('case', 'CasexStatement', Y, (((i(1), e), X0), (None, X0)))),
    lambda e: ('initial', ('for', ('ba', v('k'), e, None, None), FOR_COND, FOR_POST, X0)),
    lambda e: ('initial', ('for', FOR_PRE, e, FOR_POST, X0)),
    lambda e: ('initial', ('for', FOR_PRE, FOR_COND, ('ba', v('k'), e, None, None), X0)),
    lambda e: ('initial', ('syscall', 'display', (e, Y, e))),
    lambda e: ('initial', ('delay', e)),
    lambda e: ('initial', ('ba', Y, v('a'), e, e)),
    lambda e: ('assign', Y, v('a'), e, e),
    lambda e: ('assign', ('bit', Y, e), i(1), None, None),
    lambda e: ('assign', ('part', Y, e, i(0)), i(1), None, None),
    lambda e: ('assign', ('cat', (('part', Y, i(3), e), v('z'))), i(1), None, None),
    lambda e: ('decl', (('Wire', 'w', (e, i(0)), False, None),)),
    lambda e: ('decl', (('Reg', 'w', (i(7), e), True, ((e, i(0)), (i(0), e))),)),
    lambda e: ('decl', (('Parameter', 'P', e, None, False),)),
    lambda e: ('decl', (('Localparam', 'P', e, (i(3), i(0)), False),)),
    lambda e: ('inst', 'sub', (), (('u', None, (('p', e), ('q', v('a')))),)),
    lambda e: ('inst', 'sub', (), (('u', None, ((None, v('a')), (None, e))),)),
    lambda e: ('inst', 'sub', (('P', e), ('Q', i(1))), (('u', None, ()),)),
    lambda e: ('inst', 'sub', ((None, i(1)), (None, e)), (('u', (e, i(0)), ((None, v('a')),)),)),
    lambda e: ('func', 'f', (e, i(0)), (('decl', (('Input', 'x', (i(3), e), False, None),)), ('ba', v('f'), e, None, None))),
    lambda e: ('gen', (('if', e, ('assign', Y, i(1), None, None), None),)),
    lambda e: ('gen', (('for', ('ba', v('k'), e, None, None), e, ('ba', v('k'), e, None, None), ('block', 'b', (('assign', Y, i(1), None, None),))),)),
    lambda e: ('decl', (('Integer', 'k', e),)),
    lambda e: ('pragma', 'keep', e),
]


def rejoin(text):
    """The generated text itself is not judged, only what it denotes; keep it for reports."""
    return text if len(text) < 1500 else text[:1500] + '...'


def gen_module(tree):
    return core.attempt(vp.codegen, tree)


def round_trip(cases, st, build, solo=False):
    """cases: model items. build: AST from the constructors (P05) or from parsing the rendered text (P04)."""
    want = [vlog.norm(m) for m in cases]
    if build:
        r = core.attempt(lambda: vlog.bsource([('module', 'm', (), (), tuple(cases))]))
    else:
        src = 'module m();\n' + '\n'.join(vlog.ritem(m) for m in cases) + '\nendmodule\n'
        r = core.attempt(vp.parse, src)

    def bad(why, detail=None):
        if solo:
            st.count('evaluations')
            st.fail(key(cases[0]), why, {'model': repr(cases[0]), 'verilog': vlog.ritem(cases[0]), 'detail': detail})
        else:
            for c in cases:
                round_trip([c], st, build, True)
    if r[0] != 'ok':
        if build:
            return bad('building the tree failed: %s %s' % r[1:])
        if solo:
            st.count('not parsed')      # rejection of legal source is P01-P03's matter
            return
        return bad('')
    tree = r[1]
    g = gen_module(tree)
    if g[0] != 'ok':
        return bad('code generation raised %s: %s' % g[1:])
    back = core.attempt(vp.parse, g[1])
    if back[0] != 'ok':
        return bad('generated code does not parse: %s %s\n%s' % (back[1], back[2], rejoin(g[1]) if solo else ''))
    got = core.attempt(lambda: vlog.read(back[1].description.definitions[0]))
    if got[0] != 'ok' or got[1][1] != 'm':
        return bad('generated code reads as %r' % (got,))
    items = got[1][4]
    # declarations may be regrouped: compare flattened sequences
    gi = vlog.split_decls([vlog.norm(x) for x in items])
    wi = vlog.split_decls(want)
    if len(gi) != len(wi):
        return bad('generated code has items %r' % (gi[:6],))
    for a, b in zip(gi, wi):
        if a != b and not (vlog.ambiguous(b) and vlog.unwrap(a) == vlog.unwrap(b)):
            return bad('generated code denotes %r\nthe tree is       %r\n%s' % (a, b, rejoin(g[1]) if solo else ''))
    g2 = gen_module(back[1])
    if g2 != g and not build:
        return bad('generating again from the generated code gives different code:\n%s\n---\n%s' % (rejoin(g[1]), rejoin(str(g2[1]))))
    st.count('evaluations', len(cases))
    st.count('nontrivial', len(cases))
    st.count('traces', len(cases))
    st.count('transitions', 3 * len(cases))
    for w in want:
        st.state(w)
    st.outcome(g[1])


def key(m):
    return vlog.ritem(m)


def round_trip_module(m, st, build):
    """A whole module model (headers)."""
    src = vlog.rmodule(m)
    r = core.attempt(lambda: vlog.bsource([m]) if build else vp.parse(src))
    st.count('evaluations')
    st.count('traces')
    st.count('nontrivial')
    st.count('transitions', 3)
    st.state(m)
    if r[0] != 'ok':
        if build:
            st.fail(src, 'building the tree failed: %r' % (r,))
        else:
            st.count('not parsed')
        return
    g = gen_module(r[1])
    if g[0] != 'ok':
        st.fail(src, 'code generation raised %s: %s' % g[1:], {'source': src})
        return
    back = core.attempt(lambda: vlog.read(vp.parse(g[1]).description.definitions[0]))
    st.outcome(g[1])
    if back[0] != 'ok' or vlog.norm(back[1]) != vlog.norm(m):
        st.fail(src, 'generated code denotes %r\nthe source denotes %r\n%s' % (
            back[1] if back[0] != 'ok' else vlog.norm(back[1]), vlog.norm(m), g[1]), {'source': src})
        return
    g2 = gen_module(vp.parse(g[1]))
    if g2 != g and not build:
        st.fail(src, 'generating again gives different code', {'first': g[1], 'second': g2[1]})


def sources(st, build):
    """Several definitions, names, empty modules: the description survives."""
    mods = [('module', 'm', (), (), ()), ('module', '\\e+1', (), (('port', 'a'), ('port', '\\p-')), (('assign', Y, v('a'), None, None),)),
            ('module', 'k', ((('Parameter', 'P', i(1), None, False),),), (('ioport', ('Input', 'a', None, False, None), None),), ()),
            ('module', 'or', (), (), (('gen', ()),))]
    for k in (1, 2, 3):
        for ms in itertools.product(mods, repeat=k):
            src = vlog.rsource(ms)
            r = core.attempt(lambda: vlog.bsource(ms) if build else vp.parse(src))
            g = gen_module(r[1]) if r[0] == 'ok' else r
            back = core.attempt(lambda: vlog.rdsource(vp.parse(g[1]))) if g[0] == 'ok' else g
            st.count('evaluations')
            st.count('nontrivial')
            st.count('traces')
            st.state(ms)
            st.outcome(g)
            if back[0] != 'ok' or tuple(vlog.norm(x) for x in back[1]) != tuple(vlog.norm(x) for x in ms):
                st.fail('source ' + ' | '.join(m[1] for m in ms), 'generated code denotes %r' % (back,), {'source': src})


def fragments(st):
    """Code generation of a fragment (expression, statement) is the text of that fragment: it parses back in place."""
    for e in gen.expr_models(False):
        for how in ('right', 'left'):
            t = core.attempt(lambda: vp.codegen(vlog.bexpr(e)))
            st.count('evaluations')
            st.count('nontrivial')
            st.count('traces')
            st.outcome(t)
            if t[0] == 'ok':
                src = 'module m(); assign y = %s; endmodule' % (
                    '(%s)' % t[1] if how == 'right' else '%s' % t[1])
                b = core.attempt(lambda: vlog.rd(vp.items(vp.parse(src))[0].right))
            else:
                b = t
            if b != ('ok', e):
                st.fail('fragment %r' % (e,), 'generated %r, which denotes %r' % (t, b))


def spaces(t, build):
    yield 'declarations', (m for _, m in gen.decl_items(t))
    yield 'instances', (m for _, m in gen.instance_items(t))
    yield 'always', gen.always_items()
    yield 'statements', (('initial', m) for m in gen.statements(3) if build or not vlog.ambiguous(m))
    yield 'functions', gen.func_items(t)
    yield 'long', (m for m in gen.long_models() if build or not vlog.ambiguous(m))
    yield 'generate', (m for m in gen.generate_items(3 if t else 2) if build or not vlog.ambiguous(m))
    e2 = list(gen.expr_models(True))
    e1 = list(gen.expr_models(False))
    yield 'expressions depth 2', (CTX[0](e) for e in e2)
    full = range(1, len(CTX)) if t else ()
    for n in full:
        yield 'context %d x depth 2' % n, (CTX[n](e) for e in e2)
    if not t:
        for n in range(1, len(CTX)):
            yield 'context %d x depth 1' % n, (CTX[n](e) for e in e1)
    e3 = gen.expr_models3()
    if t:
        yield 'expressions depth 3', (CTX[0](e) for e in e3)
    else:
        yield 'expressions depth 3 (every 4th operator)', (
            CTX[0](e) for n, e in enumerate(e3) if (n // 4) % 4 == (n % 4))


def drive(ctx, build):
    vp.parser()
    t = ctx.thorough
    units, sizes = [], {}
    for name, g in spaces(t, build):
        n = 0
        for ch in core.chunks(g, 60):
            units.append(('items', ch))
            n += len(ch)
        sizes[name] = n
    mods = []
    for text, ports in gen.header_ports(t):
        mods.append(('module', 'm', (), ports, (CTX[0](v('a')),)))
    for text, params in gen.header_params(t):
        mods.append(('module', 'm', params, (('port', 'a'),), (CTX[0](v('a')),)))
    mods += list(gen.long_modules())
    for e in gen.expr_models(False):
        mods.append(('module', 'm', ((('Parameter', 'P', e, (e, i(0)), False),), (('Parameter', 'Q', e, None, True),)),
                     (('ioport', ('Output', 'a', (e, i(0)), True, None), ('Reg', 'a', (e, i(0)), True, None)),), ()))
    sizes['headers'] = len(mods)
    for ch in core.chunks(mods, 60):
        units.append(('mods', ch))
    units.append(('src', None))
    if build:
        units.append(('frag', None))

    def work(u, st):
        k, ch = u
        if k == 'items':
            round_trip(ch, st, build)
            st.sample({'model': repr(ch[0])[:300]})
        elif k == 'mods':
            for m in ch:
                round_trip_module(m, st, build)
        elif k == 'src':
            sources(st, build)
        else:
            fragments(st)
    ctx.rule = ('every model of the listed spaces: build or parse -> generate -> parse -> compare, generate again -> same text; '
                'non-trivial: all (each has an operator, declaration, statement or connection to preserve)')
    ctx.bounds = {'expression contexts': len(CTX), 'space sizes': sizes}
    ctx.assumptions = ['the parser reads the generated text correctly (P01-P03 check the parser against an independent reference)']
    ctx.explore(units, work)


def run_parsed(ctx):
    drive(ctx, False)


def run_built(ctx):
    drive(ctx, True)
