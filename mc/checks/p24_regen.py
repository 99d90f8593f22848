"""P24: the code regenerated from a dataflow computes what the design computes."""
import itertools
import os
import re
import shutil
import subprocess
import tempfile

from mc import core, elab, sim, vp
from mc.checks import p15_comb, p16_clocked, p17_elab, p18_merge
from mc.sim import Design, Sig


def regenerate(text, top, name, targets=()):
    """the code the real tools make from the design"""
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    from pyverilog.dataflow.dataflow_codegen import VerilogCodeGenerator
    an = vp.analyze(text, top)
    if targets and not set('.'.join(t) for t in targets) <= set(str(k) for k in an.getBinddict()):
        return None  # nothing drives it
    op = VerilogDataflowOptimizer(an.getTerms(), an.getBinddict())
    op.resolveConstant()
    g = VerilogCodeGenerator(top, an.getTerms(), an.getBinddict(), op.getResolvedTerms(), op.getResolvedBinddict(), op.getConstlist(), modulename=name)
    g.set_clock_info('CLK', 'posedge')
    g.set_reset_info('RST', 'negedge')
    return g.generateCode(targets)


def bench(jobs):
    """jobs: (index, text, top, regenerated, inputs, vectors, observed [(original path, new path)], clocked)"""
    out, off = [], 1
    for j, text, top, code, ins, vecs, obs, clocked in jobs:
        out += [text, code]
        names = {g.name for g in ins}
        there = set(re.findall(r'[a-zA-Z_]\w*', code))
        out.append('module tb%d;' % j)
        for n, w in [(g.name, g.width) for g in ins] + [(n, 1) for n in ('CLK', 'RST') if n not in names]:
            out.append('reg %s %s;' % ('[%d:0]' % (w - 1) if w > 1 else '', n))
        out.append('%s u(%s);' % (top, ', '.join('.%s(%s)' % (g.name, g.name) for g in ins)))
        out.append('g%d w(.CLK(CLK), .RST(RST), .HT_enable(1\'b1)%s);' % (j, ''.join(', .m_%s(%s)' % (g.name, g.name) for g in ins if g.name not in ('CLK', 'RST') and 'm_' + g.name in there)))
        out.append('initial begin #%d;' % off)
        off += 10 * (len(vecs) + 1)
        for v in vecs:
            out.append(' '.join('%s = %d;' % (n, x) for n, x in v.items() if '.' not in n) + ' #3')
            out.append(' '.join('u.%s = %d;' % (n[2:], x) + (' w.m_%s = %d;' % (n[2:], x) if 'm_' + n[2:].split('[')[0] in there else '') for n, x in v.items() if '.' in n) + ' #3')
            if clocked:
                out.append('CLK = 1;')
            out.append('#1 $display("V %%0d%s"%s);' % (' %b' * 2 * len(obs), ', %d' % j + ''.join(', u.%s, w.m_%s' % o for o in obs)))
            if clocked:
                out.append('CLK = 0;')
            out.append('#3;')
        out.append('end endmodule')
    return '\n'.join(out) + '\n'


def simulate(jobs):
    """-> {index: lines} ; or None when the simulator rejects the texts"""
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    try:
        with open(d + '/t.v', 'w') as f:
            f.write(bench(jobs))
        r = subprocess.run(['iverilog', '-g2005', '-o', d + '/t.out', d + '/t.v'], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        q = subprocess.run(['vvp', '-n', d + '/t.out'], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(d)
    res = {j[0]: [] for j in jobs}
    for l in q.split('\n'):
        if l.startswith('V '):
            p = l.split()
            res[int(p[1])].append(p[2:])
    return res, ''


def differs(p, q):
    return len(p) != len(q) or any(x in '01' and x != y for x, y in zip(p, q))


def judge(part, st):
    """part: (key, text, top, inputs, vectors, observed, clocked)"""
    jobs, key = [], {}
    for j, (k, text, top, ins, vecs, obs, clocked, names, targets) in enumerate(part):
        st.count('evaluations')
        for n in names:
            text = sim.rename_module(text, n, '%s_%d' % (n, j))
        q = core.attempt(lambda: regenerate(part[j][1], 'm', 'g%d' % j, targets))
        if q[0] == 'exc':
            st.fail(k, 'regenerating raised %s: %s' % q[1:], {'text': part[j][1]})
            continue
        if q[1] is None:
            continue
        key[j] = k
        jobs.append((j, text, 'm_%d' % j, q[1], ins, vecs, obs, clocked))
    if not jobs:
        return
    res, err = simulate(jobs)
    if res is None:
        # some text is rejected: one by one
        res = {}
        for q in jobs:
            r, err = simulate([q])
            if r is None:
                st.fail(key[q[0]], 'the simulator rejects the regenerated text: %s' % ' '.join(l.split(': ', 1)[-1] for l in err.strip().split('\n')[:3])[:300], {'text': q[1], 'code': q[3]})
            else:
                res.update(r)
    for j, text, top, code, ins, vecs, obs, clocked in jobs:
        if j not in res:
            continue
        lines = res[j]
        if len(lines) != len(vecs):
            st.fail(key[j], 'the simulation of the original and the regenerated text does not end', {'text': text, 'code': code})
            continue
        bad = None
        for v, l in zip(vecs, lines):
            st.count('transitions')
            for o, p, q in zip(obs, l[::2], l[1::2]):
                st.count('traces')
                st.count('judged')
                if differs(p, q) and bad is None:
                    bad = 'with %s, %s is %s in the design and %s in the regenerated code' % (v, o[0], p, q)
        if bad:
            st.fail(key[j], bad, {'text': text, 'code': code})
        st.state(key[j])
        st.outcome(re.sub(r'\bg\d+\b', 'g', code))


def flat(d, key):
    """one module: all valuations of the inputs (and registers) it uses; every signal is compared"""
    regs = {g.name for g in p16_clocked.clocked_of(d)}
    free, fixed = p16_clocked.spaces(d)
    ins = [g for g in d.sigs if g.kind == 'input']
    vecs = []
    for vs in itertools.product(*[p16_clocked.domain(g) for g in free]):
        full = dict(fixed)
        full.update((g.name, v) for g, v in zip(free, vs))
        v = {}
        for n, x in full.items():
            if n in regs:
                for i, y in enumerate(x) if isinstance(x, (list, tuple)) else ((None, x),):
                    v['u.' + n + ('' if i is None else '[%d]' % (i + min(d.by[n].dims)))] = y
            elif n != 'CLK':
                v[n] = x
        vecs.append(v)
    obs = []
    for g in d.sigs:
        if g.kind in ('input', 'integer'):
            continue
        if g.dims:
            obs += [('%s[%d]' % (g.name, i),) * 2 for i in range(min(g.dims), max(g.dims) + 1)]
        else:
            obs.append((g.name, g.name))
    return (key, d.text(), 'm', ins, vecs or [{}], obs, bool(regs), ['m'], ())


def statements(ss):
    """all statements of a block, with the inner ones"""
    for s in ss or ():
        yield s
        k = s[0]
        inner = [s[2], s[3]] if k == 'if' else [[s[2]], [s[3]] if s[3] is not None else []] if k == 'if1' else [b for c, b in s[2]] if k in ('case', 'casex', 'casez') else [s[5]] if k == 'for' else [s[2]] if k == 'while' else [s[3]] if k == 'block' else []
        for b in inner:
            for x in statements(b):
                yield x


def outside(d):
    """why the dataflow of this design has no text of its own: it has overlapping parts of one signal,
    parts of a value that is no signal, or matches with wildcards"""
    parts = {}
    for i in d.items:
        ss = list(statements(i[2])) if i[0] == 'always' else []
        ls = [i[1]] if i[0] == 'assign' else [s[1] for s in ss if s[0] in ('=', '<=')]
        if any(s[0] in ('casex', 'casez') for s in ss):
            return 'wildcards'
        for l in ls:
            if l[0] == 'cat':
                return 'concatenated targets'
            parts.setdefault(l[1], set()).add(sim.target(l))
    for n, ps in parts.items():
        if any(p != q and sim.overlaps(p, q) for p in ps for q in ps):
            return 'overlapping parts'


def space(th):
    for f, ex in (('drivers', p15_comb.drivers(th)),):
        for k, d in ex:
            yield 'drivers ' + k + ' ' + d.text(), d
    for bk in p15_comb.initialised(th):
        yield 'block ' + sim.block_text(bk), Design(p15_comb.INS + p15_comb.REGS, [('always', '*', bk)])
    for bk in p15_comb.wildcard():
        yield 'case ' + sim.block_text(bk), Design(p15_comb.INS + [p15_comb.E4] + p15_comb.REGS, [('always', '*', bk)])
    for r, l, bk in p15_comb.loops(th):
        yield 'loop ' + sim.block_text(bk), Design(p15_comb.INS + [p15_comb.E4] + r + l + [Sig('j', 'integer')], [('always', '*', bk)])
    for k, fs, sg, items in p15_comb.funcs(th):
        yield 'function ' + ' '.join(f.text() for f in fs) + ' '.join(sim.item_text(i) for i in items), Design(p15_comb.INS + list(sg), items, fs)
    for k, sg, items in p15_comb.several(th):
        yield 'several ' + ' '.join(sim.item_text(i) for i in items), Design(p15_comb.INS + list(sg), items)
    for bk in p16_clocked.blocks(th):
        yield 'clocked ' + sim.block_text(bk), Design([p16_clocked.CLK] + p16_clocked.INS + p16_clocked.REGS, [('always', '(posedge CLK)', bk)])
    for k, sg, it in p16_clocked.several(th):
        yield 'clocked several ' + p16_clocked.text(it), Design(sg, it)
    for sg, it in p16_clocked.loops(th):
        yield 'clocked loops ' + p16_clocked.text(it), Design(sg, it)
    for sg, it in p16_clocked.memories(th):
        yield 'memories ' + ' '.join(g.text() for g in sg if g.dims) + p16_clocked.text(it), Design(sg, it)
    for sg, fs, it in p16_clocked.functions(th):
        yield 'clocked functions ' + fs[0].text() + p16_clocked.text(it), Design(sg, it, fs)


def hierarchies(th):
    for f in p17_elab.FAM:
        for key, mods in p17_elab.keyed(f, th):
            d = elab.Elab(mods, mods[-1].name).design
            if mods[-1].name != 'm' or p16_clocked.clocked_of(d) or outer(key, mods):
                continue
            text = '\n'.join(q.text() for q in mods)
            free, fixed = p16_clocked.spaces(d)
            ins = [g for g in d.sigs if g.kind == 'input']
            vecs = [dict(fixed, **{g.name: v for g, v in zip(free, vs)}) for vs in itertools.product(*[p16_clocked.domain(g) for g in free])]
            obs = [(g.name, g.name) for g in d.sigs if g.kind not in ('input', 'integer') and not g.dims and '.' not in g.name and '?' not in g.name]
            if vecs and obs:
                yield key, text, [q.name for q in mods], ins, vecs, obs


def limits():
    """one design for each kind of data flow that is outside the domain"""
    for kind, args in (('or', 'y, a[0], a[1]'), ('and', 'y, {a, c}, s'), ('xnor', 'y, (!c), s')):
        yield 'gate input: %s' % kind, 'module m(input [1:0] a, input c, input s); wire y; %s g(%s); endmodule' % (kind, args), ['y'], False
    yield 'variable part', 'module m(input [1:0] a, input c, input s); wire [3:0] x; wire [1:0] y; assign x = {a, c, s}; assign y = x[a[0] +: 2]; endmodule', ['x', 'y'], False
    yield 'concatenated target', 'module m(input [1:0] a, input c, input s); reg [1:0] x, y; always @* {x, y} = a + c; endmodule', ['x', 'y'], False
    yield 'overlapping parts', 'module m(input [1:0] a, input c, input s); reg [1:0] x; always @* begin x = a; x[1] = s; end endmodule', ['x'], False
    yield 'wildcards', "module m(input [1:0] a, input c, input s); reg [1:0] x; always @* casez (a) 2'b1?: x = 1; default: x = {c, s}; endcase endmodule", ['x'], False
    yield 'negative parameter', 'module sub(input c, output [5:0] q); parameter [3:0] P = 5; assign q = P + c; endmodule\nmodule m(input [1:0] a, input c, input s); wire [5:0] x; sub #(.P(-2)) u(c, x); endmodule', ['x'], False


def outer(key, mods):
    """the same for hierarchies: selections from a gate input that is no name, negative parameters"""
    def inner(items):
        for i in items:
            if i[0] == 'gate' and any(x[0] != 'v' for x in i[3][1:]):
                return True
    return any(inner(m.items) for m in mods) or '(- 2)' in key


SUBSETS = ('several', 'clocked several', 'loop', 'clocked loops', 'memories', 'chains', 'hierarchies', 'connections', 'generates', 'drivers')


def cases(th):
    for k, text, obs, clocked in limits():
        ins = [Sig('a', 'input', 1, 0), Sig('c', 'input'), Sig('s', 'input')]
        vecs = [dict(a=a, c=c, s=s) for a in range(4) for c in range(2) for s in range(2)]
        yield ('limit ' + k, text, 'm', ins, vecs, [(o, o) for o in obs], clocked, ['m', 'sub'] if 'module sub' in text else ['m'], ()), 'limit'
    for key, d in space(th):
        yield (None, key) if outside(d) or any(sim.outer_reads(f) for f in d.funcs) else (flat(d, key), key)
    for f in p18_merge.FAMILIES:
        for key, d in p18_merge.designs(f, th):
            yield (None, key) if 'variable part' in key or outside(d) or any(sim.outer_reads(f) for f in d.funcs) else (flat(d, key), key)
    for key, text, names, ins, vecs, obs in hierarchies(th):
        yield (key, text, 'm', ins, vecs, obs, False, names, ()), key


def subsets(q, th):
    """the same design, one signal at a time: the code of only what that signal depends on"""
    seen = []
    for o in q[5]:
        n = o[0].split('[')[0]
        if n not in seen:
            seen.append(n)
    for n in seen if th else seen[-1:]:
        yield ('only %s: %s' % (n, q[0]),) + q[1:5] + ([o for o in q[5] if o[0].split('[')[0] == n],) + q[6:8] + ((('m', n),),)


def run(ctx):
    th = ctx.thorough
    n = 64
    only = os.environ.get('P24_ONLY')

    def work(u, st):
        i, = u
        part = []
        for j, (q, key) in enumerate(cases(th)):
            if j % n != i or only and not key.startswith(only):
                continue
            if q is None:
                st.count('outside')
                continue
            part.append(q)
            if q[0].startswith(SUBSETS):
                part += list(subsets(q, th))
            if len(part) >= 24:
                judge(part, st)
                part = []
        if part:
            judge(part, st)

    with core.quiet():
        ctx.explore([(i,) for i in range(n)], work)
    ctx.stats.count('nontrivial', ctx.stats.n['judged'])
    ctx.rule = ('one state is one design analysed, resolved and written back as Verilog by the real code (the whole of it, or what one signal depends on); both texts run side by side in the simulator '
                'and its transitions are all valuations of inputs and registers (a clocked design makes one clock edge from each); every signal (bit by bit, where the original has a defined value) is judged')
    ctx.bounds = {'designs': 'the families of P15 (drivers, blocks, cases, loops, functions, several blocks), P16 (blocks, several, loops, memories, functions), P17 (without clocks, signals of the top module) and P18',
                  'parts': 'for %s: the code of %s alone' % (', '.join(SUBSETS), 'each signal' if th else 'the last signal'),
                  'valuations': 'all values of every input and register that the design uses'}
    ctx.assumptions = ['iverilog simulates both texts correctly', 'dataflow without a text of its own is outside (%d designs): concatenated targets, overlapping parts, wildcard matches, variable part selects, selections from gate inputs; one of each is a known finding' % ctx.stats.n['outside'],
                       'the text has one module, clock CLK, reset RST']
