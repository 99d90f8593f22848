"""P02: declarations, headers, parameters and instances are represented exactly as written.
P03: procedural and generate constructs likewise."""
import itertools

from mc import core, gen, vlog, vp


def module_text(items, params=None, ports=None):
    return 'module m%s%s;\n%s\nendmodule\n' % (
        '' if params is None else ' #(%s)' % params, '' if ports is None else ' (%s)' % ports, '\n'.join(items))


def check_items(cases, st, solo=False):
    """cases: [(text, model item)]; parse them as the body of one module and compare each."""
    src = module_text([t for t, _ in cases])
    r = core.attempt(vp.parse, src)
    if r[0] == 'ok':
        items = vp.items(r[1])
        if len(items) != len(cases):
            r = ('exc', 'ItemCount', '%d items in the text, %d in the tree' % (len(cases), len(items)))
    if r[0] != 'ok':
        if solo:
            st.count('evaluations')
            st.fail(cases[0][0], 'legal item rejected or lost: %s: %s' % (r[1], r[2]), {'source': src})
        else:
            for c in cases:
                check_items([c], st, True)
        return
    for (text, want), it in zip(cases, items):
        g = core.attempt(vlog.read, it)
        got = vlog.norm(g[1]) if g[0] == 'ok' else ('?', g[1], g[2])
        want = vlog.norm(want)
        st.count('evaluations')
        st.count('nontrivial')
        st.count('traces')
        st.count('transitions', text.count(' ') + 1)
        st.state(want)
        st.outcome(got)
        if got != want:
            st.fail(text, 'tree holds %r\nthe text declares %r' % (got, want), {'source': module_text([text])})


def check_header(case, st):
    kind, text, want = case
    body = ['wire zz;'] if kind != 'both' else []
    src = {'ports': lambda: module_text(body, None, text),
           'params': lambda: module_text(body, text, None),
           'both': lambda: module_text(body, text[0], text[1])}[kind]()
    r = core.attempt(lambda: vlog.read(vp.parse(src).description.definitions[0]))
    st.count('evaluations')
    st.count('nontrivial')
    st.count('traces')
    st.count('transitions', src.count(' '))
    st.state((kind, want))
    st.outcome(r)
    if r[0] != 'ok':
        st.fail('%s: %s' % (kind, text), 'legal header rejected: %s %s' % r[1:], {'source': src})
        return
    got = r[1]
    params = tuple(v for d in got[2] for v in d)
    if kind == 'params':
        ok = params == tuple(v for d in want for v in d) and got[3] == ()
    elif kind == 'ports':
        ok = got[3] == want and params == ()
    else:
        ok = params == tuple(v for d in want[0] for v in d) and got[3] == want[1]
    if not ok or got[1] != 'm' or len(got[4]) != len(body):
        st.fail('%s: %s' % (kind, text), 'header read as params=%r ports=%r\nthe text declares %r' % (got[2], got[3], want),
                {'source': src})


def check_sources(st):
    """Several definitions per source, names, default_nettype."""
    names = ['m', 'sub', '\\e+1', 'or']
    for k in (1, 2, 3):
        for ns in itertools.product(names, repeat=k):
            for nts in itertools.product((None, 'none', 'wire'), repeat=k):
                src, want, cur = '', [], 'wire'
                for n, nt in zip(ns, nts):
                    if nt:
                        src += '`default_nettype %s\n' % nt
                        cur = nt
                    src += 'module %s (x); input x; endmodule\n' % gen.nm(n)
                    want.append((n, cur))
                r = core.attempt(lambda: [(d.name, d.default_nettype) for d in vp.parse(src).description.definitions])
                st.count('evaluations')
                st.count('nontrivial')
                st.count('traces')
                st.count('transitions', k)
                st.state(('src', ns, nts))
                st.outcome(r)
                if r[0] != 'ok' or r[1] != want:
                    st.fail('source %r %r' % (ns, nts), 'definitions %r, text has %r' % (r, want), {'source': src})


def long_items(kinds):
    for m in gen.long_models():
        if m[0] in kinds and not vlog.ambiguous(m):
            if m[0] != 'decl' or len(m[1]) == 1:
                yield vlog.ritem(m), m
            else:
                x = m[1][0]     # the same variables as one comma-separated list sharing one type
                vs = tuple(x[:1] + (y[1],) + x[2:] for y in m[1])
                first = vlog.rvar(vs[0])
                tail = first[first.index(x[1]) + len(x[1]):]
                yield first + ''.join(', ' + y[1] + tail for y in vs[1:]) + ';', ('decl', vs)


def seq_pool():
    """A few items of every kind; all sequences of them are module bodies (order, count, repeats)."""
    from mc.gen import i, v
    ms = [('decl', (('Wire', 'w', None, False, None),)), ('decl', (('Input', 'a', (i(3), i(0)), False, None), ('Reg', 'a', (i(3), i(0)), False, None))),
          ('decl', (('Parameter', 'P', i(1), None, False),)), ('decl', (('Integer', 'k', None),)), ('decl', (('Genvar', 'g'),)),
          ('assign', v('x'), v('a'), None, None), ('initial', gen.X0), ('always', 'Always', gen.SENS[1], gen.X1),
          ('inst', 'sub', (), (('u', None, ((None, v('x')), (None, v('x')))),)),
          ('func', 'f', (i(0), i(0)), (('decl', (('Input', 'a', None, False, None),)), gen.X0)), ('task', 't', (gen.X0,)),
          ('gen', (('assign', v('x'), v('a'), None, None),)), ('pragma', 'keep', i(1))]
    return [(vlog.ritem(m), m) for m in ms]


def check_sequence(cases, st):
    src = module_text([t for t, _ in cases])
    r = core.attempt(lambda: vlog.split_decls([vlog.norm(vlog.read(x)) for x in vp.items(vp.parse(src))]))
    want = vlog.split_decls([vlog.norm(m) for _, m in cases])
    st.count('evaluations')
    st.count('traces')
    st.count('transitions', len(cases))
    st.state(('seq', want))
    st.outcome(r)
    if r != ('ok', want):
        st.fail(src, 'items read back as %r\nthe text has %r' % (r[1:], want), {'source': src})


def run(ctx):
    vp.parser()
    t = ctx.thorough
    units, sizes = [], {}
    pool = seq_pool()
    sq = [s for k in range(1, ctx.pick(4, 5)) for s in itertools.product(pool, repeat=k)]
    sizes['item sequences'] = len(sq)
    for ch in core.chunks(sq, 300):
        units.append(('seq', ch))
    for name, g in (('declarations', gen.decl_items(t)), ('instances', gen.instance_items(t)),
                    ('long', long_items(('decl', 'inst', 'assign')))):
        n = 0
        for ch in core.chunks(g, 150):
            units.append(('items', ch))
            n += len(ch)
        sizes[name] = n
    ports, params = list(gen.header_ports(t)), list(gen.header_params(t))
    hs = [('ports', a, b) for a, b in ports] + [('params', a, b) for a, b in params]
    for (a, b), (c, d) in itertools.product(params[::7], ports[::97 if not t else 31]):
        if a is not None:
            hs.append(('both', (a, c), (b, d)))
    for m in gen.long_modules():
        if m[2]:
            hs.append(('params', ', '.join(vlog.rvar(x) for d in m[2] for x in d), m[2]))
        elif m[3]:
            hs.append(('ports', ', '.join(vlog.rport(x) for x in m[3]), m[3]))
    for n in gen.LONG:          # one declaration inherited by a long list of names
        names = ['p%d' % k for k in range(n)]
        for one in (('Input', None, False), ('Output', gen.W[1], True), ('Inout', gen.W[3], False)):
            hs.append(('ports', vlog.rport(('ioport', (one[0], names[0], one[1], one[2], None), None)) + ''.join(', ' + x for x in names[1:]),
                       tuple(('ioport', (one[0], x, one[1], one[2], None), None) for x in names)))
        hs.append(('params', 'parameter ' + ', '.join('%s = %d' % (x, k) for k, x in enumerate(names)),
                   tuple((('Parameter', x, gen.i(k), None, False),) for k, x in enumerate(names))))
    sizes['headers'] = len(hs)
    for ch in core.chunks(hs, 150):
        units.append(('hdr', ch))
    units.append(('src', None))
    units.append(('lost', None))

    def work(u, st):
        k, ch = u
        if k == 'items':
            check_items(ch, st)
            st.sample({'text': ch[0][0], 'model': repr(ch[0][1])})
        elif k == 'hdr':
            for c in ch:
                check_header(c, st)
        elif k == 'src':
            check_sources(st)
        elif k == 'seq':
            for c in ch:
                check_sequence(c, st)
        else:
            for text, name in gen.UNSUPPORTED_DECL:
                # a construct outside the supported subset may be rejected, never dropped silently
                from pyverilog.vparser.parser import ParseError
                try:
                    its = vp.items(vp.parse(module_text([text])))
                    ok = any(name in repr(vp.full(i)) for i in its)
                except ParseError:
                    ok = True
                st.count('evaluations')
                if not ok:
                    st.fail(text, 'accepted, but the declared name is nowhere in the tree', {'source': module_text([text])})
    ctx.rule = ('every declaration form x sign x range x array x name kind x list shape, every header up to 4 ports / 3 '
                'parameter groups, every instance form; non-trivial: all (each item carries at least one named entity)')
    ctx.bounds = {'space sizes': sizes}
    ctx.assumptions = ['expressions inside are from a small pool (expression structure is P01)']
    ctx.explore(units, work)


# ---------------------------------------------------------------- P03

def stmt_texts(m, wrap):
    """The canonical text of a statement plus spelling variants of its sensitivity list."""
    return wrap % vlog.rstmt(m)


def run_stmt(ctx):
    vp.parser()
    t = ctx.thorough
    depth = 4 if t else 3
    units, sizes = [], {}

    def cases():
        for m in gen.statements(depth):
            if vlog.ambiguous(m):
                continue
            yield 'initial ' + vlog.rstmt(m), ('initial', m)

    def always():
        for m in gen.always_items():
            yield vlog.ritem(m), m
            kw = {'Always': 'always', 'AlwaysFF': 'always_ff', 'AlwaysComb': 'always_comb', 'AlwaysLatch': 'always_latch'}[m[1]]
            if m[2]:
                for s in gen.sens_texts(m[2]):
                    yield '%s %s %s' % (kw, s, vlog.rstmt(m[3])), m
        for s in gen.SENS:
            for x in gen.sens_texts(s):
                yield 'initial %s;' % x, ('initial', ('event', s))
                yield 'initial begin %s; x = a; end' % x, ('initial', ('block', None, (('event', s), gen.X0)))

    def delays():
        # spellings of delays, and of a delay in front of statements that take one
        for txt, d in (('#2', gen.i(2)), ('#(2)', gen.i(2)), ('#D', gen.v('D')), ('#1.5', ('flt', '1.5')), ('#(D)', gen.v('D')),
                       ('#(D[0])', ('bit', gen.v('D'), gen.i(0)))):
            for op, k in (('=', 'ba'), ('<=', 'nba')):
                yield 'initial %s x %s a;' % (txt, op), ('initial', (k, gen.v('x'), gen.v('a'), d, None))
                yield 'initial x %s %s a;' % (op, txt), ('initial', (k, gen.v('x'), gen.v('a'), None, d))
                yield 'initial %s x %s %s a;' % (txt, op, txt), ('initial', (k, gen.v('x'), gen.v('a'), d, d))
            yield 'initial %s;' % txt, ('initial', ('delay', d))
            iff = ('if', gen.v('c'), gen.X0, None)
            ife = ('if', gen.v('c'), gen.X0, gen.X1)
            yield 'initial %s if(c) x = a;' % txt, ('initial', ('block', None, (('delay', d), iff)))
            yield 'initial %s if(c) x = a; else y <= b+1;' % txt, ('initial', ('block', None, (('delay', d), ife)))

    def dangling():
        a, b = gen.v('p'), gen.v('q')
        S, T, U = gen.X0, gen.X1, ('ba', gen.v('z'), gen.v('c'), None, None)
        s, t_, u = (vlog.rstmt(x) for x in (S, T, U))
        yield 'initial if(p) if(q) %s else %s' % (s, t_), ('initial', ('if', a, ('if', b, S, T), None))
        yield 'initial if(p) if(q) %s else %s else %s' % (s, t_, u), ('initial', ('if', a, ('if', b, S, T), U))
        yield 'initial if(p) %s else if(q) %s else %s' % (s, t_, u), ('initial', ('if', a, S, ('if', b, T, U)))
        yield 'initial if(p) %s else if(q) %s' % (s, t_), ('initial', ('if', a, S, ('if', b, T, None)))
        yield 'initial if(p) begin if(q) %s end else %s' % (s, t_), (
            'initial', ('if', a, ('block', None, (('if', b, S, None),)), T))
        yield 'initial if(p) while(q) if(r) %s else %s' % (s, t_), (
            'initial', ('if', a, ('while', b, ('if', gen.v('r'), S, T)), None))
        yield 'initial if(p) for(i=0;q;i=i+1) if(r) %s else %s' % (s, t_), (
            'initial', ('if', a, ('for', gen.FOR_PRE, b, gen.FOR_POST, ('if', gen.v('r'), S, T)), None))
        yield 'initial if(p) forever if(r) %s else %s' % (s, t_), (
            'initial', ('if', a, ('forever', ('if', gen.v('r'), S, T)), None))
        g = gen.GI[0]
        gt = vlog.ritem(g)
        yield 'generate if(p) if(q) %s else %s endgenerate' % (gt, gt), ('gen', (('if', a, ('if', b, g, g), None),))
        yield 'generate if(p) %s else if(q) %s else %s endgenerate' % (gt, gt, gt), (
            'gen', (('if', a, g, ('if', b, g, g)),))
        yield 'generate if(p) for(i=0;q;i=i+1) if(r) %s else %s endgenerate' % (gt, gt), (
            'gen', (('if', a, ('for', gen.FOR_PRE, b, gen.FOR_POST, ('if', gen.v('r'), g, g)), None),))

    def funcs():
        for m in gen.func_items(t):
            yield vlog.ritem(m), m
        yield 'function f; input a; f = a; endfunction', (
            'func', 'f', (gen.i(0), gen.i(0)), (('decl', (('Input', 'a', None, False, None),)), ('ba', gen.v('f'), gen.v('a'), None, None)))
        yield 'function integer f; input a; f = a; endfunction', (
            'func', 'f', (gen.i(31), gen.i(0)), (('decl', (('Input', 'a', None, False, None),)), ('ba', gen.v('f'), gen.v('a'), None, None)))

    def gens():
        for m in gen.generate_items(3):
            if vlog.ambiguous(m):
                continue
            yield vlog.ritem(m), m

    for name, g in (('statements', cases()), ('always', always()), ('delays', delays()), ('if-else pairing', dangling()),
                    ('functions and tasks', funcs()), ('generate', gens()),
                    ('long', long_items(('initial', 'always', 'func', 'task', 'gen')))):
        n = 0
        for ch in core.chunks(g, 100):
            units.append(ch)
            n += len(ch)
        sizes[name] = n

    def work(ch, st):
        check_items(ch, st)
        st.sample({'text': ch[0][0][:300], 'model': repr(ch[0][1])[:300]})
    ctx.rule = ('every statement form over every leaf, all pairs of forms in two-place forms, nested to the depth bound; every '
                'sensitivity-list spelling; functions, tasks and generate constructs to their bounds')
    ctx.bounds = {'statement nesting': depth, "generate nesting": 3, 'space sizes': sizes}
    ctx.assumptions = ['expressions inside are from a small pool (expression structure is P01)']
    ctx.explore(units, work)
