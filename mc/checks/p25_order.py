"""P25: the same input gives the same output, byte for byte, in every process.

The only thing that differs between two processes is the hash seed, and through it the order in which sets are
iterated. That order is put under control (mc/orders.py) and explored: every tool on every design once with each
other order of each iteration, and with all iterations turned round. Then the tools are run in processes with
different hash seeds, nothing controlled, and the bytes are compared."""
import contextlib
import hashlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from mc import core, orders, vp

OWN = [
    ('many ports', 'm', 'module m(input CLK, input RST, input zeta, input alpha, input [3:0] mid, output reg out1, output [3:0] out2, output out3);\n'
     'wire u1, u2, u3; assign u1 = alpha & zeta, u2 = u1 | mid[0], u3 = u2 ^ u1 ^ zeta; assign out3 = u3; assign out2 = {u1, u2, u3, alpha};\nalways @(posedge CLK) if (RST) out1 <= 0; else if (u3) out1 <= u2 & alpha; endmodule', ('m.out1', 'm.out2', 'm.out3')),
    ('parts', 'm', 'module m(input CLK, input a, input b, input c, output reg [3:0] q, output [3:0] w);\nassign w[3] = a & b; assign w[2] = b | c; assign w[1:0] = {c, a};\n'
     'always @(posedge CLK) begin q[3] <= a; if (b) q[2] <= w[1]; q[1:0] <= w[3:2]; end endmodule', ('m.q', 'm.w')),
    ('clocks', 'm', 'module m(input CLK1, input CLK2, input RST_X, input d, output reg p, output reg q, output r);\nalways @(posedge CLK1 or negedge RST_X) if (!RST_X) p <= 0; else p <= d;\n'
     'always @(negedge CLK2) q <= p; assign r = q & p & d; endmodule', ('m.p', 'm.q', 'm.r')),
    ('functions and tasks', 'm', 'module m(input [3:0] x, input [3:0] y, output [3:0] z, output reg [3:0] v);\nfunction [3:0] f; input [3:0] p; input [3:0] q; f = p > q ? p - q : q - p; endfunction\n'
     'assign z = f(x, f(y, x)); integer i; always @* begin v = x; for (i = 0; i < 4; i = i + 1) if (y[i]) v = v + x; end endmodule', ('m.z', 'm.v')),
    ('generates', 'm', 'module s(input i, output o); assign o = !i; endmodule\nmodule m #(parameter N = 3, parameter M = N + 1)(input [N:0] a, output [N:0] b, output c);\n'
     'localparam K = M * 2; genvar g; generate for (g = 0; g <= N; g = g + 1) begin : lane wire t; s u(.i(a[g]), .o(t)); assign b[g] = t & a[(g + 1) % M]; end endgenerate\nassign c = |b & (K > 3); endmodule', ('m.b', 'm.c')),
    ('directives', 'm', '`timescale 1ns / 1ps\n`default_nettype none\nmodule m(input wire a, input wire b, output wire c, inout wire d);\nsupply0 g; supply1 v; tri t; assign c = a ? g : b; assign t = v; assign d = c ? t : 1\'bz; endmodule\n`default_nettype wire\n', ('m.c', 'm.t', 'm.d')),
    ('rejected', 'm', 'module m(input a, output b);\nassign b = = a;\nendmodule\n', ()),
    ('no such module', 'm', 'module m(input a, output b);\nnothere u(a, b);\nendmodule\n', ()),
]


def designs(th):
    """(name, top, text, signals)"""
    from mc.checks import p08_history, p17_elab, p18_merge, p19_walk, p20_machines
    for d in OWN + p08_history.DESIGNS:
        yield d
    for k, h in enumerate(p20_machines.HAND):
        if th or k % 2 == 0:
            yield 'machine ' + h[0], 'm', h[1], tuple(sorted(h[2]))[:2]
    ds = list(p20_machines.decisions(3, False))
    for k, s in enumerate(p20_machines.STYLES):
        for j in range(4 if th else 1):
            d = p20_machines.design([(s, [ds[(k * 5 + j * 7 + i * 3) % len(ds)] for i in range(3)])])
            yield 'machine %s %d' % (s.name, j), 'm', d.text(), ('m.state0',)
    for k, (n, nodes) in enumerate(p19_walk.graphs(th)):
        if k % (301 if th else 401) == 7:
            yield 'graph %d' % k, 'm', p19_walk.Net(nodes).text(), tuple('m.x%d' % i for i in range(len(nodes)))
    for f in p17_elab.FAM:
        for k, (key, mods) in enumerate(p17_elab.keyed(f, th)):
            if k % (37 if th else 173) == 5:
                outs = tuple('m.' + x for x in re.findall(r'output(?: reg)?(?: \[[^]]*\])? (\w+)', mods[-1].text()))
                yield '%s %d' % (f, k), 'm', '\n'.join(m.text() for m in mods), outs[:2]


class Tools(object):
    """every tool on one design; do(op) gives what the tool writes"""

    def __init__(self, design):
        self.name, self.top, self.text, self.names = design

    def ops(self):
        r = [('tokens',), ('dump',), ('code',), ('identifiers',), ('dataflow',)]
        if self.names:
            r += [('resolve',), ('merge',), ('walk', 0), ('walk', 1), ('machines',), ('loops',), ('entire',), ('entire tree',), ('regenerate',) + self.names, ('subset',) + self.names]
            for s in self.names:
                r += [('subset', s), ('regenerate', s), ('graph', s), ('graph whole', s), ('active', s), ('range', s)]
        return r

    def do(self, o):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = core.attempt(lambda: self._do(o), budget_s=30)
        return repr(r) + '\n' + out.getvalue()

    def ready(self):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        an = vp.analyze(self.text, self.top)
        opt = VerilogDataflowOptimizer(an.getTerms(), an.getBinddict())
        opt.resolveConstant()
        return (self.top, an.getTerms(), an.getBinddict(), opt.getResolvedTerms(), opt.getResolvedBinddict(), opt.getConstlist())

    def args(self):
        """made once per process, so that an operation starts from the same dictionaries"""
        if not hasattr(self, 'kept'):
            self.kept = core.attempt(self.ready, budget_s=30)
        if self.kept[0] == 'exc':
            raise RuntimeError('%s: %s' % self.kept[1:])
        return self.kept[1]

    def _do(self, o):
        from pyverilog.utils import util
        kind, s = o[0], (o[1] if len(o) > 1 else None)
        t = lambda x: None if x is None else x.tostr()
        if kind == 'tokens':
            from pyverilog.vparser.lexer import dump_tokens
            return dump_tokens(self.text)
        if kind == 'dump':
            out = io.StringIO()
            vp.parse(self.text).show(buf=out, showlineno=True)
            return out.getvalue()
        if kind == 'code':
            return vp.codegen(vp.parse(self.text))
        if kind == 'identifiers':
            from pyverilog.utils.identifierreplace import replaceIdentifiers
            from pyverilog.utils.identifiervisitor import getIdentifiers
            tree = vp.parse(self.text)
            ids = getIdentifiers(tree)
            return repr(ids), vp.codegen(replaceIdentifiers(tree, {'a': 'aa', 'q': 'p'}))
        if kind == 'dataflow':
            an = vp.analyze(self.text, self.top)
            return ([repr(x) for x in an.getSignals()], [repr(x) for x in an.getConsts()], repr(an.getInstances()), an.get_directives(),
                    [(str(k), v.tostr(), v.tocode()) for k, v in an.getTerms().items()], [(str(k), b.tostr(), b.tocode()) for k, v in an.getBinddict().items() for b in v])
        args = self.args()
        top, terms, binds, rterms, rbinds, consts = args
        by = {str(n): n for n in terms}
        n = by.get(s)
        if kind == 'resolve':
            from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
            opt = VerilogDataflowOptimizer(terms, binds)
            opt.resolveConstant()
            return ([(str(k), v.tostr()) for k, v in opt.getResolvedTerms().items()], [(str(k), b.tostr()) for k, v in opt.getResolvedBinddict().items() for b in v], [(str(k), v.tostr()) for k, v in opt.getConstlist().items()])
        if kind == 'merge':
            from pyverilog.dataflow.merge import VerilogDataflowMerge
            m = VerilogDataflowMerge(*args)
            return [(str(k), core.attempt(lambda: t(m.getTree(k)))) for k in terms]
        if kind == 'walk':
            from pyverilog.dataflow.walker import VerilogDataflowWalker
            w = VerilogDataflowWalker(*args)
            return [(x, core.attempt(lambda: t(w.walkBind(x, o[1])))) for x in self.names]
        if kind in ('subset', 'entire'):
            from pyverilog.dataflow.subset import VerilogSubset
            x = VerilogSubset(*args)
            parts = x.getSubset(list(o[1:])) if kind == 'subset' else x.getEntire()
            show = lambda v: [y.tostr() for y in v] if isinstance(v, (set, frozenset, list, tuple)) else v.tostr()
            return [[(str(k), show(v)) for k, v in p.items()] for p in parts]
        if kind in ('regenerate', 'entire tree'):
            from pyverilog.dataflow.dataflow_codegen import VerilogCodeGenerator
            return VerilogCodeGenerator(*args).generateCode(list(o[1:]))
        if kind in ('graph', 'graph whole'):
            from pyverilog.dataflow.graphgen import VerilogGraphGenerator
            g = VerilogGraphGenerator(*(args + ('x.png',)))
            g.generate(s, walk=kind == 'graph whole', step=1)
            return g.graph.to_string()
        if kind in ('machines', 'loops'):
            from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
            c = VerilogControlflowAnalyzer(*args)
            if kind == 'loops':
                loops, machines = c.getLoops()
                return repr([(str(k), list(v)) for k, v in loops.items()]), list(map(str, machines))
            here, folder, r = os.getcwd(), tempfile.mkdtemp(), []
            try:
                os.chdir(folder)
                for k, f in c.getFiniteStateMachines().items():
                    print(k, f.delaycnt)
                    f.view()
                    print(list(f.get_loop()))
                    f.tograph(filename=util.toFlatname(k) + '.dot')
                    r.append({x: open(x).read() for x in sorted(os.listdir('.'))})
            finally:
                os.chdir(here)
                shutil.rmtree(folder)
            return r
        if kind == 'active':
            from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
            r = VerilogActiveConditionAnalyzer(*args).getActiveConditions(n)
            return [(str(k), [(str(p), t(c)) for p, c in v]) for k, v in r.items()]
        if kind == 'range':
            from pyverilog.controlflow.active_range import VerilogActiveAnalyzer
            a = VerilogActiveAnalyzer(*args)
            return [core.attempt(lambda: [x.tocode() for x in f(n)]) for f in (a.getActiveConditions, a.getChangedConditions, a.getUnchangedConditions)] + [core.attempt(lambda: [(k.tocode(), t(v)) for k, v in a.getChangedConditionsWithAssignments(n).items()])]
        raise ValueError(kind)


def differ(a, b):
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y:
            i = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return '...%s  and  ...%s' % (x[max(0, i - 60):i + 100], y[max(0, i - 60):i + 100])
    return 'one output is longer'


def explore(design, th, st):
    tools = Tools(design)
    for o in tools.ops():
        name = ' '.join(map(str, o))
        key = '%s: %s' % (tools.name, name)
        first, points = orders.run(lambda: tools.do(o))
        st.count('evaluations')
        st.count('traces')
        st.state((key, 'canonical'))
        st.outcome(first)
        st.count('iterations', len(points))
        if re.search(r' at 0x[0-9a-f]{6,}', first):
            st.fail('%s: address' % key, 'the output has an address of the process: %s' % re.search(r'.{0,80} at 0x[0-9a-f]{6,}', first).group(0), {'design': tools.text})
            continue
        tried = [({k: c}, None, '%s over %d elements in order %d' % (p, n, c)) for k, (p, n) in enumerate(points) for c in range(1, alternatives(n))]
        if points:
            tried.append((None, lambda x: x[::-1], 'all turned round'))
            tried.append((None, lambda x: x[1:] + x[:1], 'all rotated'))
        if th and len(points) <= 14:
            tried += [({k: 1, j: 1}, None, '%s and %s turned' % (points[k][0], points[j][0])) for k in range(len(points)) for j in range(k)]
        else:
            st.count('without pairs')
        for choices, every, what in tried:
            second, met = orders.run(lambda: tools.do(o), choices, every)
            st.count('evaluations')
            st.count('traces')
            st.count('transitions', len(met))
            st.state((key, what, str(choices)))
            if second != first:
                st.fail(key, 'the output depends on the order in which a set is iterated (%s): %s' % (what, differ(first, second)), {'design': tools.text, 'tool': name, 'order': what, 'outputs': [first, second]})
                break


def alternatives(n):
    return orders.alternatives(n)


def plain(th):
    """what every tool writes, in this process as it is (run as a process of its own)"""
    for d in designs(th):
        tools = Tools(d)
        for o in tools.ops():
            yield '%s: %s' % (tools.name, ' '.join(map(str, o))), tools.do(o), tools.text


def process(seed, th, fast=False):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.checks.p25_order', '1' if th else '0'], env=env, capture_output=True)
    if p.returncode:
        raise RuntimeError('a process with hash seed %s: %s' % (seed, p.stderr.decode()[-1500:]))
    return [tuple(x) for x in json.loads(p.stdout.decode())]


def run(ctx):
    th = ctx.thorough
    orders.install()
    seeds = ctx.pick(6, 24)
    all_designs = list(designs(th))
    folder = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))

    def work(u, st):
        kind, x = u
        if kind == 'orders':
            explore(x, th, st)
        else:
            with open(os.path.join(folder, '%d.json' % x), 'w') as f:
                json.dump(process(x, th), f)

    with core.quiet():
        vp.parser()
        vp.analyze('module m; endmodule', 'm')
        ctx.explore([('seed', s) for s in range(seeds)] + [('orders', d) for d in all_designs], work)
    runs = [json.load(open(os.path.join(folder, f))) for f in sorted(os.listdir(folder))]
    found = {k for k, w, r in ctx.stats.viol}
    for other in runs[1:]:
        if [x[0] for x in other] != [x[0] for x in runs[0]]:
            raise RuntimeError('the processes ran different tools')
        for (k, a, text), (_, b, _) in zip(runs[0], other):
            ctx.stats.count('evaluations')
            ctx.stats.count('compared between processes')
            if a != b and k not in found:
                found.add(k)
                ctx.stats.fail(k, 'two processes with different hash seeds write different bytes: %s' % differ(a, b), {'design': text, 'outputs': [a, b]})
    ctx.stats.count('nontrivial', ctx.stats.n['iterations'])
    ctx.stats.sample(all_designs[0][2])
    ctx.rule = ('one state is one execution of a tool on a design under one choice of orders; transitions are the iterations over sets (of two or more elements) met in it; every execution must write the bytes of the one in canonical order; '
                'the outputs of uncontrolled processes with different hash seeds are compared too')
    ctx.bounds = {
        'orders': 'every order of each iteration over up to 3 elements and 5 of more, one iteration at a time' + ('' if not th else ', two at a time turned round where there are at most 14') + '; all iterations turned round and rotated',
        'designs': len(all_designs), 'hash seeds': seeds,
        'tools': 'token dump, tree dump, code generator, identifiers, dataflow, constants, merge, walk, subset, entire dataflow, regenerated code, graph, state machines and their pictures, loops, active conditions and ranges',
    }
    ctx.assumptions = ['the order of sets is the only thing that the hash seed changes (addresses in outputs are looked for; the uncontrolled processes would show others)']


if __name__ == '__main__':
    with core.quiet():
        vp.parser()
        rows = [(k, out, text) for k, out, text in plain(sys.argv[1] == '1')]
    sys.stdout.write(json.dumps(rows))
