"""P10: preprocessing selects, substitutes and includes as directed, for files and texts in order, and leaves nothing behind."""
import itertools
import os
import shutil
import tempfile

from mc import core, vp

# ------------------------------------------------------------------ programs of directives
# ('w',) marker   ('d', M, v|None) define   ('u', M) undef   ('m', M) use of a macro value   ('i', F) include
# ('if', [(word, M, body), ...], else-body|None) with words ifdef/ifndef first and elsif after


def programs(thorough):
    one = [('w',), ('d', 'A', None), ('d', 'A', '7'), ('d', 'B', '`A+1'), ('u', 'A'), ('m', 'A'), ('m', 'B'), ('df',), ('mf',)]
    bodies = [(), (('w',),), (('d', 'A', None), ('w',)), (('u', 'A'),), (('d', 'B', '3'),)]
    ifs = []
    for w, m in itertools.product(('ifdef', 'ifndef'), 'AB'):
        for b in bodies:
            ifs.append(('if', ((w, m, b),), None))
            for e in bodies[:3]:
                ifs.append(('if', ((w, m, b),), e))
            for m2 in 'ABC':
                for b2 in bodies[1:3]:
                    for e in (None, (('w',),)):
                        ifs.append(('if', ((w, m, b), ('elsif', m2, b2)), e))
    for m1, m2, m3 in itertools.product('ABC', 'ABC', 'ABC'):
        ifs.append(('if', (('ifdef', m1, (('w',),)), ('elsif', m2, (('w',),)), ('elsif', m3, (('w',), ('w',)))), (('w',),)))
    nested = []
    inner = [x for x in ifs if len(x[1]) == 1][:24]
    for w, m in itertools.product(('ifdef', 'ifndef'), 'AB'):
        for x in inner:
            nested.append(('if', ((w, m, (x, ('w',))),), (('w',),)))
            nested.append(('if', ((w, m, (('w',),)),), (('w',), x)))
            nested.append(('if', ((w, m, (('d', 'A', '5'), ('if', (('elsif' if 0 else 'ifdef', 'B', (x,)),), (('w',),)))),), None))
    tops = one + ifs + nested
    for p in tops:
        yield (p, ('w',))
    for p, q in itertools.product(one, tops):
        yield (p, q, ('w',))
    for p, q in itertools.product(ifs[::1 if thorough else 4], ifs[::1 if thorough else 5]):
        yield (p, q)
    for p, q, r in itertools.product(one, one, one + ifs[::3 if thorough else 17]):
        yield (p, q, r)
    if thorough:
        for p in itertools.product(one, repeat=4):
            yield p + (ifs[3],)


class Undefined(Exception):
    pass


def run_model(prog, macros, n=None):
    """Items that remain: list of ('wire', k) and ('par', k, value)."""
    out, ctr = [], [0]

    def value(v, seen=()):
        if v is None:
            raise Undefined()
        return v

    def expand(m):
        if m not in macros or macros[m] in (None, ''):
            raise Undefined()
        v = macros[m]
        if '`A' in v:
            return v.replace('`A', expand('A'))
        if v == '`F(2)':
            return 'F'
        return v

    def walk(p, live):
        for x in p:
            k = x[0]
            if k in ('w', 'm', 'mf'):
                ctr[0] += 1
                if live and k == 'w':
                    out.append(('wire', 'w%d' % ctr[0]))
                elif live and k == 'm':
                    out.append(('par', 'w%d' % ctr[0], expand(x[1])))
                elif live:
                    if 'F' not in macros:
                        raise Undefined()
                    out.append(('par', 'w%d' % ctr[0], '(3)*' + expand('A') + '-2'))
            elif k == 'd' and live:
                macros[x[1]] = x[2]
            elif k == 'df' and live:
                macros['F'] = 'func'
            elif k == 'u' and live:
                macros.pop(x[1], None)
            elif k == 'if':
                done = False
                for w, m, b in x[1]:
                    hit = live and not done and ((m in macros) != (w == 'ifndef'))
                    walk(b, hit)
                    done = done or hit
                if x[2] is not None:
                    walk(x[2], live and not done)
    walk(prog, True)
    return out


def render(prog, suf, style=0):
    """The text of a program with macro names ending in suf."""
    out, ctr = [], [0]

    def walk(p):
        for x in p:
            k = x[0]
            if k in ('w', 'm', 'mf'):
                ctr[0] += 1
            if k == 'w':
                out.append('wire w%d;' % ctr[0])
            elif k == 'm':
                out.append('localparam w%d = `%s%s;' % (ctr[0], x[1], suf))
            elif k == 'mf':
                out.append('localparam w%d = `F%s(3, 2) ;' % (ctr[0], suf))
            elif k == 'd':
                out.append(('`define %s%s' % (x[1], suf) + ('' if x[2] is None else ' ' + x[2].replace('`A', '`A' + suf))))
            elif k == 'df':
                out.append('`define F%s(x, y) (x)*`A%s-y' % (suf, suf))
            elif k == 'u':
                out.append('`undef %s%s' % (x[1], suf))
            else:
                for w, m, b in x[1]:
                    out.append('`%s %s%s' % (w, m, suf))
                    walk(b)
                if x[2] is not None:
                    out.append('`else')
                    walk(x[2])
                out.append('`endif')
    walk(prog)
    return '\n'.join(out) + '\n'


def observed(mod):
    out = []
    from mc import vlog
    for d in mod.items:
        for v in d.list:
            if type(v).__name__ == 'Wire':
                out.append(('wire', v.name))
            else:
                out.append(('par', v.name, vlog.rexpr(vlog.rd(v.value)).replace(' ', '')))
    return out


def canon(items):
    """Parameter values as the reference text is parsed."""
    return [x if x[0] == 'wire' else ('par', x[1], x[2]) for x in items]


def expected_items(items):
    src = 'module m; %s endmodule' % ' '.join('wire %s;' % x[1] if x[0] == 'wire' else 'localparam %s = %s;' % (x[1], x[2]) for x in items)
    return observed(vp.parse(src).description.definitions[0])


class scratch(object):
    """A working directory of its own, also for temporary files; reports what is left behind."""

    def __enter__(self):
        self.old = os.getcwd()
        self.oldtmp = tempfile.tempdir
        self.dir = tempfile.mkdtemp(prefix='mc_pp_', dir=os.environ.get('MC_SCRATCH'))
        os.mkdir(self.dir + '/cwd')
        os.mkdir(self.dir + '/tmp')
        os.mkdir(self.dir + '/tables')
        tempfile.tempdir = self.dir + '/tmp'
        os.chdir(self.dir + '/cwd')
        self.err = os.dup(2)
        null = os.open('/dev/null', os.O_WRONLY)
        os.dup2(null, 2)
        os.close(null)
        return self

    def __exit__(self, *a):
        os.dup2(self.err, 2)
        os.close(self.err)
        os.chdir(self.old)
        tempfile.tempdir = self.oldtmp
        shutil.rmtree(self.dir)

    def write(self, files):
        for n, t in files.items():
            if os.path.dirname(n):
                os.makedirs(os.path.dirname(n), exist_ok=True)
            with open(n, 'w') as f:
                f.write(t)

    def snapshot(self):
        out = {}
        for d in ('cwd', 'tmp'):
            for base, _, fs in os.walk(self.dir + '/' + d):
                for f in fs:
                    p = os.path.join(base, f)
                    with open(p, 'rb') as h:
                        out[os.path.relpath(p, self.dir)] = h.read()
        return out


def batch(progs, st):
    """Many programs in one text, each a module with macros of its own; every set of macros defined by the caller."""
    from pyverilog.vparser.preprocessor import preprocess
    with scratch():
        for given in ((), ('A',), ('B',), ('A', 'B')):
            texts, defs, want = [], [], []
            for k, p in enumerate(progs):
                suf = '_%d' % k
                try:
                    w = run_model(p, {m: {'A': '1', 'B': '41'}[m] for m in given})
                except Undefined:
                    st.count('undefined macro used')
                    continue
                want.append((k, w))
                texts.append('module m%d;\n%sendmodule\n' % (k, render(p, suf)))
                defs += ['A' + suf if m == 'A' else 'B%s=41' % suf for m in given]
            src = ''.join(texts)
            with open('src.v', 'w') as f:
                f.write(src)
            r = core.attempt(lambda: preprocess(['src.v'], output='out.pp', include=None, define=defs))
            mods = core.attempt(lambda: {d.name: observed(d) for d in vp.parse(r[1]).description.definitions}) if r[0] == 'ok' else r
            for k, w in want:
                st.count('evaluations')
                st.count('traces')
                st.count('transitions', len(progs[k]))
                st.state((progs[k], given))
                e = expected_items(w)
                st.outcome(e)
                got = mods[1].get('m%d' % k) if mods[0] == 'ok' else mods
                if got != e:
                    st.fail('%s with %r' % (render(progs[k], '').replace('\n', ' ; '), given), 'remaining items %r, expected %r' % (got, e),
                            {'source': render(progs[k], ''), 'define': given})
                    if mods[0] != 'ok':
                        break


# ------------------------------------------------------------------ lists of sources

PIECES = {
    'def': '`define A 1\n',
    'def2': '`define A 2\n`define B\n',
    'undef': '`undef A\n',
    'use': '`ifdef A\nmodule u@; localparam p = `A; endmodule\n`else\nmodule n@; endmodule\n`endif\n',
    'inc': '`include "inc.vh"\nmodule i@; localparam p = `INC; endmodule\n',
    'mod': 'module x@;\nwire a; // `undef A\nassign a = "// `A /* ";\nendmodule\n',
}
INC = {'': None, 'd1': '`define INC 11\n', 'd2': '`define INC 22\n', 'sub dir': '`define INC 33\n'}


def model_sources(pieces, incs, defines, cwd_inc):
    """Module names and parameter values that the sources denote, or None when the preprocessor must fail."""
    mac, out = {}, []
    for d in defines:
        n, _, v = d.partition('=')
        mac[n] = v or '1'
    for j, p in enumerate(pieces):
        if p == 'def':
            mac['A'] = '1'
        elif p == 'def2':
            mac['A'] = '2'
            mac['B'] = ''
        elif p == 'undef':
            mac.pop('A', None)
        elif p == 'use':
            out.append(('u%d' % j, mac.get(mac['A'][1:], '') if mac['A'][:1] == '`' else mac['A']) if 'A' in mac else ('n%d' % j, None))
        elif p == 'inc':
            if cwd_inc:
                mac['INC'] = '99'
            elif not incs:
                return None
            else:
                mac['INC'] = {'d1': '11', 'd2': '22', 'sub dir': '33'}[os.path.basename(incs[0])]
            out.append(('i%d' % j, mac['INC']))
        elif p == 'mod':
            out.append(('x%d' % j, 'str'))
        elif p in ('bad', 'open'):
            return None
    return out


def of_source(ast):
    out = []
    for d in ast.description.definitions:
        v = None
        for i in d.items:
            if type(i).__name__ == 'Decl' and type(i.list[0]).__name__ == 'Localparam':
                v = getattr(i.list[0].value.var, "value", None) or i.list[0].value.var.name
            if type(i).__name__ == 'Assign':
                v = 'str' if getattr(i.right.var, 'value', None) == '// `A /* ' else 'damaged'
        out.append((d.name, v))
    return out


BAD = {'bad': '`include "missing.vh"\nmodule b@; endmodule\n', 'open': '`ifdef A\nmodule o@; endmodule\n'}


def entry(kind, srcs, incs, defines, tables):
    """Run one public entry point; returns a list of module descriptions per call made."""
    from pyverilog.vparser import parser as P
    from pyverilog.vparser.preprocessor import preprocess, VerilogPreprocessor
    if kind == 'preprocess':
        return lambda: of_source(vp.parse(preprocess(srcs, include=incs, define=defines)))
    if kind == 'preprocess-out':
        return lambda: of_source(vp.parse(preprocess(srcs, 'other.out', incs, defines)))
    if kind == 'class':
        pre = VerilogPreprocessor(srcs, 'cls.out', incs, defines)

        def go():
            pre.preprocess()
            with open('cls.out') as f:
                t = f.read()
            os.remove('cls.out')
            return of_source(vp.parse(t))
        return go
    if kind == 'codeparser':
        c = P.VerilogCodeParser(srcs, preprocess_include=incs, preprocess_define=defines, outputdir=tables, debug=False)
        return lambda: of_source(c.parse())
    if kind == 'codeparser-out':
        c = P.VerilogCodeParser(srcs, preprocess_output='x.out', preprocess_include=incs, preprocess_define=defines, outputdir=tables,
                                debug=False)
        return lambda: of_source(c.parse())
    if kind == 'parse':
        return lambda: of_source(P.parse(srcs, preprocess_include=incs, preprocess_define=defines, outputdir=tables, debug=False)[0])
    raise ValueError(kind)


def one_config(cfg, st):
    kind, pieces, forms, incs, defines, cwd_inc, stale, twice, wrap = cfg
    key = 'entry=%s pieces=%s as %s include=%r define=%r%s%s%s%s' % (
        kind, '+'.join(pieces), '+'.join(forms), incs, defines, ' inc.vh in cwd' if cwd_inc else '', ' stale output' if stale else '',
        ' twice' if twice else '', ' %s' % wrap if wrap != 'list' else '')
    want = model_sources(pieces, incs or (), defines or (), cwd_inc)
    with scratch() as s:
        files = {'d1/inc.vh': INC['d1'], 'd2/inc.vh': INC['d2'], 'sub dir/inc.vh': INC['sub dir'], 'keep.v': 'module keep; endmodule\n'}
        if cwd_inc:
            files['inc.vh'] = '`define INC 99\n'
        srcs = []
        for j, (p, f) in enumerate(zip(pieces, forms)):
            t = (PIECES.get(p) or BAD[p]).replace('@', str(j))
            if f == 'text':
                srcs.append(t)
            else:
                n = {'file': 'f%d.v', 'dir': 'sub dir/f%d.v'}[f] % j
                files[n] = t
                srcs.append(n)
        s.write(files)
        if stale:
            s.write({'preprocess.output': 'module stale; endmodule\n'})
        before = s.snapshot()
        arg = {'list': list, 'tuple': tuple, 'str': lambda x: x[0]}[wrap](srcs)
        if incs is not None:
            # a directory may be given by its full name
            incs = type(incs)(os.path.join(os.getcwd(), i[1:]) if i[0] == '/' else i for i in incs)
        made = core.attempt(entry, kind, arg, incs, defines, s.dir + '/tables')
        st.state(key)
        for n in range(2 if twice else 1):
            r = core.attempt(made[1]) if made[0] == 'ok' else made
            st.count('evaluations')
            st.count('traces')
            st.count('transitions', len(pieces))
            st.outcome((kind, r[0], r[1] if r[0] == 'ok' else r[1]))
            if want is None and r[0] == 'ok':
                st.fail(key, 'the sources cannot be preprocessed; the result is %r' % (r[1],), {'config': cfg})
                break
            if want is not None and r != ('ok', want):
                st.fail(key, 'call %d gives %r, expected %r' % (n + 1, r, want), {'config': cfg})
                break
            if want is None and r[1] in ('HANG', 'SystemExit'):
                st.fail(key, 'the failure is reported by %r' % (r,), {'config': cfg})
        after = s.snapshot()
        out = 'cwd/preprocess.output'
        if stale and kind in ('preprocess', 'codeparser', 'parse'):
            before.pop(out)     # the output file of that name is overwritten and removed
        if after != before:
            st.fail(key, 'files left, changed or lost: %r' % sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k)),
                    {'config': cfg})


def configs(thorough):
    kinds = ['preprocess', 'preprocess-out', 'class', 'codeparser', 'codeparser-out', 'parse']
    fast = kinds[:3]
    names = ['def', 'def2', 'undef', 'use', 'inc', 'mod']
    seqs = [p for n in (1, 2, 3) for p in itertools.product(names, repeat=n) if 'use' in p or 'inc' in p or 'mod' in p]
    for kind in (kinds if thorough else fast):
        for p in seqs:
            if len(p) == 3 and kind not in fast[:1]:
                continue
            for forms in itertools.product(('file', 'text'), repeat=len(p)):
                if not thorough and len(p) == 3 and len(set(forms)) == 1:
                    continue
                yield (kind, p, forms, ['d1'], None, False, False, len(p) < 3, 'list')
    for kind in kinds:
        for incs in [None, ['d1'], ['d2'], ['d1', 'd2'], ['d2', 'd1'], ('sub dir', 'd1'), ['d2', 'sub dir', 'd1']]:
            for defs in [None, ['A'], ['A=5'], ['B'], ('A=3', 'B=1'), ['B', 'A=4'], ['INC=1']]:
                for p in (('use', 'inc'), ('inc',), ('use',)):
                    for cwd in (False, True):
                        if (kind in kinds[3:]) and not thorough and (cwd or len(p) == 2 or p == ('use',) and incs or p == (
                                'inc',) and defs not in (None, ['B', 'A=4'])):
                            continue
                        yield (kind, p, ('file', 'dir')[:len(p)] if not cwd else ('text', 'file')[:len(p)], incs, defs, cwd, False,
                               False, 'list')
        # full and relative names of directories in every order, and macros that are given more than once
        for incs in itertools.chain(itertools.permutations(('d1', '/d2', './sub dir')), itertools.permutations(('/d1', 'd2')), itertools.permutations(('/d1', '/d2', '/sub dir'))):
            if kind not in kinds[3:] or thorough or len(incs) == 2:
                yield (kind, ('inc',), ('file',), incs, None, False, False, False, 'list')
        for defs in itertools.permutations(('A=5', 'A=77', 'B', 'A=6'), 3):
            if kind not in kinds[3:] or thorough or defs[0] == 'A=77':
                yield (kind, ('use',), ('file',), None, defs, False, False, False, 'list')
        for defs in (('A=5', 'A'), ('A', 'A=5'), ('A=5', 'A=5'), ('AA=3', 'A=4'), ('A=4', 'AA=3'), ('A_A=3',), ("A=4'd5",), ('B=A', 'A=B'), ('A=`B', 'B=7')):
            yield (kind, ('use',), ('text',), None, defs, False, False, False, 'list')
        for p in (('use', 'bad'), ('bad',), ('open',), ('mod', 'open'), ('def', 'use'), ('mod',), ('inc',)):
            for forms in itertools.product(('file', 'text', 'dir'), repeat=len(p)):
                for stale in (False, True):
                    for twice in (False, True):
                        if kind in kinds[3:] and not thorough and (twice == stale or 'dir' in forms or len(p) == 2 and forms[0] == forms[1]):
                            continue
                        yield (kind, p, forms, None, None, False, stale, twice, 'list')
                        if len(p) == 2 and not stale:
                            yield (kind, p, forms, None, None, False, stale, twice, 'tuple')
        for f in ('file', 'text', 'dir'):
            for p in ('use', 'mod'):
                yield (kind, (p,), (f,), None, ['A=8'], False, False, True, 'str')


def program_choice(st):
    """PYVERILOG_IVERILOG names the preprocessor program."""
    from pyverilog.vparser.preprocessor import preprocess
    with scratch() as s:
        s.write({'f.v': 'module m; endmodule\n', 'prog': '#!/bin/sh\necho used >> "%s/log"\nexec iverilog "$@"\n' % s.dir})
        os.chmod('prog', 0o755)
        old = os.environ.get('PYVERILOG_IVERILOG')
        try:
            for n, v in enumerate((os.path.abspath('prog'), None, os.path.abspath('prog'))):
                if v:
                    os.environ['PYVERILOG_IVERILOG'] = v
                else:
                    os.environ.pop('PYVERILOG_IVERILOG', None)
                r = core.attempt(lambda: 'module' in preprocess(['f.v']))
                used = open(s.dir + '/log').read().count('used') if os.path.exists(s.dir + '/log') else 0
                st.count('evaluations')
                st.count('traces')
                st.outcome((n, used))
                if r != ('ok', True) or used != (1, 1, 2)[n]:
                    st.fail('PYVERILOG_IVERILOG=%s' % v, 'result %r, the named program ran %d times' % (r, used))
        finally:
            os.environ.pop('PYVERILOG_IVERILOG', None)
            if old is not None:
                os.environ['PYVERILOG_IVERILOG'] = old


def run(ctx):
    vp.parser()
    t = ctx.thorough
    progs = []
    seen = set()
    for p in programs(t):
        if p not in seen:
            seen.add(p)
            progs.append(p)
    cfgs = list(dict.fromkeys((c[0], c[1], c[2], tuple(c[3]) if c[3] else None, tuple(c[4]) if c[4] else None) + c[5:] for c in configs(t)))
    slow = [c for c in cfgs if c[0] in ('codeparser', 'codeparser-out', 'parse')]
    quick = [c for c in cfgs if c not in set(slow)]
    units = [('cfg', [c]) for c in slow] + [('prog', ch) for ch in core.chunks(progs, 150)] + [('cfg', ch) for ch in core.chunks(quick, 40)]
    units.append(('env', None))

    def work(u, st):
        k, ch = u
        if k == 'prog':
            batch(ch, st)
            st.sample({'program': render(ch[0], '')})
        elif k == 'cfg':
            for c in ch:
                one_config(c, st)
        else:
            program_choice(st)
    ctx.rule = ('every program of directives to a size under every set of caller macros; every list of files and texts to length 3, '
                'every include order and define list, every entry point, repeated calls and failing sources')
    ctx.bounds = {'directive programs': len(progs), 'caller macro sets': 4, 'source configurations': len(cfgs)}
    ctx.assumptions = ['the installed iverilog implements the standard preprocessing of one text',
                       'the default output file preprocess.output of the working directory belongs to the tool']
    ctx.explore(units, work)
