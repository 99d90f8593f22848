"""P08: what an object or a process did before never changes what it produces.

Explicit exploration of operation histories on shared objects. Every operation's result after a history is compared
with its result in a process in which nothing was done before (a fork of a pristine process)."""
import io
import itertools
import os
import pickle
import tempfile

from mc import core, vp

# -- texts that leave something behind, or fail on the way ----------------------------------
TEXTS = [
    ('plain', 'm', 'module m(input a, output b); assign b = ~a; endmodule'),
    ('directives', 'm', '`timescale 1ns/1ps\n`default_nettype none\nmodule m(input wire a, output wire b);\n  assign b = a;\nendmodule\n'),
    ('nettype', 'm', '`default_nettype tri\nmodule m(input a);\nendmodule\n'),
    ('lines', 'm', '\n\n// c\n/* d\n e */\nmodule m;\n\n  wire a;\n\nendmodule\n'),
    ('two modules', 'm', 'module s #(parameter W = 2) (input [W-1:0] x, output [W-1:0] y); assign y = x + 1; endmodule\nmodule m(input [3:0] a, output [3:0] b); s #(.W(4)) u(.x(a), .y(b)); endmodule'),
    ('register', 'm', 'module m(input CLK, input RST, input [3:0] d, output reg [3:0] q); always @(posedge CLK) if (RST) q <= 0; else q <= q + d; endmodule'),
    ('function', 'm', 'module m(input [3:0] a, output [3:0] b); function [3:0] f; input [3:0] x; reg [3:0] t; begin t = x ^ 3; f = t; end endfunction assign b = f(a); endmodule'),
    ('generate', 'm', 'module m(input [3:0] a, output [3:0] b); genvar i; generate for (i = 0; i < 4; i = i + 1) begin: g assign b[i] = ~a[3-i]; end endgenerate endmodule'),
    ('process', 'm', 'module m(input [1:0] s, input [3:0] a, output reg b); always @* begin b = 0; case (s) 0: b = a[0]; 1: b = &a; default: if (a > 3) b = 1; endcase end endmodule'),
    ('same names', 'm', 'module s(input x, output y); assign y = ~x; endmodule\nmodule m(input a, output b); s u(.x(a), .y(b)); endmodule'),
    ('pragma', 'm', '(* keep *) module m(input a); (* full *) wire w; endmodule'),
]
BAD = [
    ('bad token', 'm', '`timescale 1ns/1ps\nmodule m;\n  wire \x01 a;\nendmodule\n'),
    ('bad syntax', 'm', '`default_nettype none\nmodule m(input a;\n assign = 3;\nendmodule\n'),
    ('cut off', 'm', 'module m(input a);\n\n always @(posedge a) begin if (a) begin\n'),
    ('empty', 'm', ''),
    ('open comment', 'm', 'module m; /* never closed\n\n'),
    ('no top', 'nothere', 'module m(input a); endmodule'),
    ('no definition', 'm', 'module m(input a); s u(.x(a)); endmodule'),
    ('no signal', 'm', 'module m(output b); assign b = nothere; endmodule'),
    ('too many ports', 'm', 'module s(input x); endmodule\nmodule m(input a); s u(a, a, a); endmodule'),
    ('bad in function', 'm', 'module m(input a, output b); function f; input x; begin f = x & nothere; end endfunction assign b = f(a); endmodule'),
    ('bad in generate', 'm', 'module m(input a, output b); genvar i; generate for (i = 0; i < 2; i = i + 1) begin: g wire w; assign w = nothere; end endgenerate endmodule'),
    ('bad in process', 'm', 'module m(input a, output reg b); always @* begin if (a) begin: blk b = nothere; end end endmodule'),
    ('bad in instance', 'm', 'module s(input x, output y); assign y = nothere; endmodule\nmodule m(input a, output b); s u(.x(a), .y(b)); endmodule'),
]
ALL = TEXTS + BAD


def shown(ast):
    b = io.StringIO()
    ast.show(buf=b, attrnames=True)
    return b.getvalue()


def lines(n):
    """line numbers of every node, in order"""
    return [n.lineno] + [x for c in n.children() for x in lines(c)]


def trees(terms, binds):
    return (tuple(sorted((str(k), v.tostr()) for k, v in terms.items())),
            tuple(sorted((str(k), tuple(b.tostr() for b in v)) for k, v in binds.items())))


class Tools(object):
    """A parser, a generator and an analyser that are used again and again, and trees that are handed to them"""

    def __init__(self):
        from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
        from pyverilog.vparser import ast as A
        self.parser = vp.parser()
        self.gen = ASTCodeGenerator()
        vp.analyze(TEXTS[0][2], 'm') if vp._analyzer is None else None
        self.kept = {}
        # a tree the generator cannot write
        self.broken = A.ModuleDef('m', A.Paramlist(()), A.Portlist(()), (A.Assign(A.Lvalue(A.Identifier('x')), 3, None, None),))

    def tree(self, i):
        if i not in self.kept:
            # (parsed by another process, so that this parser has no history)
            self.kept[i] = forked(lambda: self.parser.parse(TEXTS[i][2]))
        return self.kept[i]

    def reset(self):
        pass

    def ops(self, names=None):
        r = [('parse', i) for i in range(len(ALL))] + [('generate', i) for i in range(len(TEXTS))] + [('generate', -1)]
        r += [('analyse', i) for i in range(len(ALL))] + [('show', 4), ('compare', 5), ('copy', 7)]
        return [o for o in r if names is None or (o[0], ALL[o[1]][0]) in names or o[0] in names]

    def label(self, o):
        return '%s %s' % (o[0], 'a broken tree' if o[1] < 0 else ALL[o[1]][0])

    def do(self, o):
        from pyverilog.vparser.parser import ParseError  # noqa: the class must exist
        kind, i = o
        if kind == 'parse':
            def f():
                t = self.parser.parse(ALL[i][2])
                return (vp.full(t), shown(t) if t is not None else None, lines(t) if t is not None else None)
            r = core.attempt(f)
            return r + (self.parser.get_directives(), self.parser.get_default_nettype())
        if kind == 'generate':
            return core.attempt(lambda: self.gen.visit(self.broken if i < 0 else self.tree(i)))
        if kind == 'analyse':
            name, top, text = ALL[i]

            def f():
                a = vp.analyze(text, top)
                return trees(a.getTerms(), a.getBinddict()), sorted(str(x) for x in a.getSignals()), sorted(map(str, a.getInstances())), sorted(map(str, a.getConsts())), a.get_directives()
            return core.attempt(f)
        if kind == 'show':
            return shown(self.tree(i))
        if kind == 'compare':
            return [self.tree(i) == self.tree(j) for j in range(len(TEXTS))], hash(self.tree(i)) == hash(self.parser.parse(TEXTS[i][2]))
        if kind == 'copy':
            import copy
            return self.gen.visit(copy.deepcopy(self.tree(i)))

    def kept_dump(self):
        return tuple((i, vp.full(self.tree(i)), tuple(lines(self.tree(i)))) for i in range(len(TEXTS)))

    dump_what = 'a tree that was handed to the tools'
    family = 'tools'


DESIGNS = [
    ('registers', 'm', 'module m(input CLK, input RST, input [3:0] d, input e, output reg [3:0] q, output [3:0] w); reg [3:0] p; assign w[1:0] = q[3:2]; assign w[3:2] = p[1:0]; '
     'always @(posedge CLK) if (RST) begin q <= 0; p <= 1; end else begin p <= q; if (e) q <= d; else if (d > 3) q <= 4\'d2; end endmodule', ('m.q', 'm.w', 'm.p')),
    ('machine', 'm', 'module m(input CLK, input RST, input a, input b, output reg o); reg [1:0] state; always @(posedge CLK) if (RST) state <= 0; else case (state) 0: if (a) state <= 1; 1: state <= b ? 2 : 0; 2: if (!b) state <= 0; endcase '
     'always @(posedge CLK) if (RST) o <= 0; else if (state == 1 && b) o <= 1; else o <= 0; endmodule', ('m.state', 'm.o')),
    ('hierarchy', 'm', 'module s #(parameter W = 2, parameter [W-1:0] I = 1) (input [W-1:0] x, output [W-1:0] y); localparam P = I + 1; assign y = x ^ P; endmodule\n'
     'module m(input [3:0] a, output [3:0] b, output [1:0] c); wire [3:0] t; s #(.W(4), .I(3)) u(.x(a), .y(t)); s v(.x(t[2:1]), .y(c)); assign b = {t[1:0], c}; endmodule', ('m.b', 'm.c', 'm.u.y')),
    ('memory', 'm', 'module m(input CLK, input [1:0] i, input [3:0] d, output [3:0] q, output reg [3:0] r); reg [3:0] mem [0:3]; assign q = mem[i]; always @(posedge CLK) begin mem[i] <= d; r[1:0] <= d[1:0]; if (d[0]) r[3:2] <= d[3:2]; end endmodule', ('m.q', 'm.r')),
    ('function', 'm', 'module m(input [3:0] a, input [3:0] b, output [3:0] o, output reg [3:0] z); function [3:0] f; input [3:0] x; input s; f = s ? x + 1 : x - 1; endfunction assign o = f(a, b[0]); always @* begin z = a; if (b > a) z = f(b, 1\'b0); z[0] = 1; end endmodule', ('m.o', 'm.z')),
    ('undriven', 'm', 'module m(input CLK, input a, output b, inout c, output reg [1:0] d); wire w; assign b = w & a; assign c = a ? 1\'bz : w; always @(posedge CLK) d[1] <= a; endmodule', ('m.b', 'm.c', 'm.d')),
]


class Analysis(object):
    """The tools that work on the dataflow of one design, all on the same dictionaries"""
    family = 'analysis'
    dump_what = 'the dataflow that was handed to the tools'

    def __init__(self, k):
        from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
        from pyverilog.controlflow.active_range import VerilogActiveAnalyzer
        from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
        from pyverilog.dataflow.dataflow_codegen import VerilogCodeGenerator
        from pyverilog.dataflow.merge import VerilogDataflowMerge
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer, VerilogOptimizer
        from pyverilog.dataflow.subset import VerilogSubset
        from pyverilog.dataflow.walker import VerilogDataflowWalker
        self.name, self.top, text, self.names = DESIGNS[k]
        an = vp.analyze(text, self.top)
        self.an = an
        self.terms, self.binds = an.getTerms(), an.getBinddict()
        self.o = VerilogDataflowOptimizer(self.terms, self.binds)
        self.o.resolveConstant()
        self.args = (self.terms, self.binds, self.o.getResolvedTerms(), self.o.getResolvedBinddict(), self.o.getConstlist())
        made = lambda c: core.attempt(lambda: c(self.top, *self.args))
        self.made = {n: made(c) for n, c in (('merge', VerilogDataflowMerge), ('walk', VerilogDataflowWalker), ('subset', VerilogSubset), ('code', VerilogCodeGenerator),
                                             ('control', VerilogControlflowAnalyzer), ('active', VerilogActiveConditionAnalyzer), ('range', VerilogActiveAnalyzer))}
        self.opt = VerilogOptimizer(self.terms, self.o.getConstlist())
        self.by = {str(n): n for n in self.terms}

    def reset(self):
        pass

    def ops(self, names=None):
        r = [('text',), ('resolve',), ('loops',), ('machines',), ('code',), ('entire',)]
        for s in self.names:
            r += [('tree', s), ('walk', s, 0), ('walk', s, 1), ('walk whole', s, 2), ('subset', s), ('part', s), ('sources', s), ('code', s), ('graph', s), ('active', s), ('range', s), ('optimise', s), ('kind', s), ('replace', s)]
        r += [('subset',) + self.names, ('tree', 'm.nothere'), ('walk', 'm.nothere', 0), ('subset', 'm.nothere')]
        return r

    def label(self, o):
        return ' '.join(map(str, o)) + ' (%s)' % self.name

    def do(self, o):
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            return core.attempt(lambda: self._do(o), budget_s=10)

    def get(self, n):
        q = self.made[n]
        if q[0] == 'exc':
            raise RuntimeError('%s: %s' % q[1:])
        return q[1]

    def _do(self, o):
        from pyverilog.dataflow import reorder, replace
        from pyverilog.dataflow.graphgen import VerilogGraphGenerator
        from pyverilog.utils import util
        kind = o[0]
        s = o[1] if len(o) > 1 else None
        n = self.by.get(s, util.toTermname(s)) if s else None
        t = lambda x: None if x is None else x.tostr()
        if kind == 'text':
            return [b.tocode() for k in self.binds for b in self.binds[k]], [v.tocode() for v in self.terms.values()]
        if kind == 'resolve':
            self.o.resolveConstant()
            return trees(self.o.getResolvedTerms(), self.o.getResolvedBinddict()), sorted((str(k), v.tostr()) for k, v in self.o.getConstlist().items())
        if kind == 'loops':
            l, m = self.get('control').getLoops()
            return sorted((str(k), sorted(v)) for k, v in l.items()), sorted(map(str, m))
        if kind == 'machines':
            return sorted((str(k), sorted((str(a), str(t(c)), str(d)) for a, ds in list(f.fsm.items()) + [('any', f.any)] for c, d in ds.items())) for k, f in self.get('control').getFiniteStateMachines().items())
        if kind in ('code', 'entire'):
            g = self.get('code')
            return g.generateCode([s] if s else ()).splitlines() if kind == 'code' else sorted(g.generateEntireCode().splitlines())
        if kind == 'tree':
            m = self.get('merge')
            return t(m.getTree(n))
        if kind == 'walk':
            return t(self.get('walk').walkBind(s, o[2]))
        if kind == 'walk whole':
            w = self.get('walk')
            return t(w.walkTree(w.getTree(n), step=o[2], delay=True))
        if kind == 'subset':
            x = self.get('subset')
            return [sorted((str(k), sorted(b.tostr() for b in v) if isinstance(v, (set, list, tuple)) else v.tostr()) for k, v in p.items()) for p in x.getSubset(list(o[1:]))]
        if kind == 'part':
            b, x = self.get('subset').getBindSubset(n)
            return sorted((str(k), sorted(y.tostr() for y in v)) for k, v in b.items()), sorted(map(str, x))
        if kind == 'sources':
            m = self.get('merge')
            return sorted(map(str, m.getBindSources(n))), sorted(map(str, m.getTermSources(n))), sorted(map(str, m.getSources(m.getTree(n))))
        if kind == 'graph':
            g = VerilogGraphGenerator(self.top, *self.args, 'x.png')
            g.generate(s, walk=True, step=1)
            return sorted(str(x) for x in g.graph.nodes()), sorted(map(str, g.graph.edges()))
        if kind == 'active':
            a = self.get('active').getActiveConditions(n)
            return sorted((str(k), sorted((str(p), str(t(c))) for p, c in v)) for k, v in a.items())
        if kind == 'range':
            a = self.get('range')
            return [sorted(x.tocode() for x in f(n)) for f in (a.getActiveConditions, a.getChangedConditions, a.getUnchangedConditions)] + [sorted((k.tocode(), t(v)) for k, v in a.getChangedConditionsWithAssignments(n).items())]
        if kind == 'optimise':
            return [(t(self.opt.optimize(b.tree)), t(reorder.reorder(b.tree))) for b in self.binds[n]]
        if kind == 'kind':
            m = self.get('merge')
            return m.isCombination(n), [m.getAssignType(n, b) for b in self.binds[n]]
        if kind == 'replace':
            return [t(replace.replaceUndefined(b.tree, n)) for b in self.binds[n]]

    def kept_dump(self):
        return trees(*self.args[:2]), trees(*self.args[2:4]), tuple(sorted((str(k), v.tostr()) for k, v in self.args[4].items()))


class Files(object):
    """One code parser whose files change between its runs, and preprocessing in one folder"""
    family = 'files'
    dump_what = 'a file'
    CONTENTS = ['module m(input a);\nendmodule\n', '`timescale 1ns/1ns\n`define X 3\nmodule m(output [`X:0] b);\nendmodule\n', '`ifdef X\nmodule x;\nendmodule\n`else\nmodule notx;\nendmodule\n`endif\n',
                'module m(;\n', '`include "nothere.vh"\nmodule m; endmodule\n', '`ifdef X\nmodule m; endmodule\n']

    def __init__(self, folder):
        from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
        self.folder = folder
        here = os.getcwd()
        os.chdir(folder)
        try:
            self.an = VerilogDataflowAnalyzer([os.path.join(folder, 't.v')], 'm')
        finally:
            os.chdir(here)

    def reset(self):
        for f in os.listdir(self.folder):
            os.remove(os.path.join(self.folder, f))

    def ops(self, names=None):
        return [(k, i) for k in ('parse', 'dataflow', 'preprocess') for i in range(len(self.CONTENTS))]

    def label(self, o):
        return '%s content %d' % o

    def do(self, o):
        from pyverilog.vparser.preprocessor import preprocess
        here = os.getcwd()
        os.chdir(self.folder)
        try:
            with open('t.v', 'w') as f:
                f.write(self.CONTENTS[o[1]])
            err = os.dup(2)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            try:
                if o[0] == 'preprocess':
                    r = core.attempt(lambda: preprocess(['t.v'], define=['Y=2']))
                elif o[0] == 'parse':
                    r = core.attempt(lambda: vp.full(self.an.parse())) + (self.an.get_directives() if o[1] < 3 else None,)
                else:
                    r = core.attempt(self.an.generate)[:1] + ((trees(self.an.getTerms(), self.an.getBinddict()), self.an.get_directives()) if o[1] < 2 else ('failed',))
            finally:
                os.dup2(err, 2)
                os.close(err)
                os.close(null)
            return r, sorted(os.listdir('.'))
        finally:
            os.chdir(here)

    def kept_dump(self):
        return None


# -- exploration -----------------------------------------------------------------------------
def forked(fn):
    """the result of fn() in a child process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('exc', 'no result', 'the process ended')


def debruijn(k, n):
    """a cyclic sequence over range(k) in which every n-tuple occurs exactly once"""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


def short(r):
    r = repr(r)
    return r if len(r) < 400 else r[:400] + '...'


def differ(a, b):
    """where two results differ"""
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...%s instead of ...%s' % (a[max(0, i - 60):i + 120], b[max(0, i - 60):i + 120])


def explore(world, ops, depth, part, parts, st):
    """Every history of `depth` operations as a part of one long history; this worker takes a slice of it."""
    refs = {}
    whole = debruijn(len(ops), depth)
    whole = whole + whole[:depth - 1]
    n = (len(whole) - depth + 1 + parts - 1) // parts
    mine = whole[part * n:part * n + n + depth - 1]
    if len(mine) < depth:
        return
    for o in sorted(set(mine)):
        world.reset()
        refs[o] = forked(lambda: (world.do(ops[o]), world.kept_dump()))
    before = forked(world.kept_dump)

    def result(hist):
        """of the last operation of a history that starts afresh"""
        def f():
            for h in hist[:-1]:
                world.do(ops[h])
            return world.do(ops[hist[-1]]), world.kept_dump()
        world.reset()
        return forked(f)

    def check(hist, got, dump):
        o = hist[-1]
        want = refs[o][0]
        if got != want:
            return 'gives ' + differ(got, want)
        if dump != before:
            return '%s is changed: %s' % (world.dump_what, differ(dump, before))

    def walk():
        bad = []
        for i, o in enumerate(mine):
            got = world.do(ops[o])
            dump = world.kept_dump() if i % 7 == 0 or depth <= 2 or i + 1 == len(mine) else before
            if check([o], got, dump):
                bad.append((i, got != refs[o][0], check([o], got, dump)))
                if len(bad) > 4:
                    break
        return i, bad
    # single operations change nothing
    for o in sorted(refs):
        what = check([o], *refs[o])
        if what:
            st.fail('%s: %s' % (world.family, world.label(ops[o])), what, {'history': [world.label(ops[o])]})
            return
    # repeated and after every other, from the start
    world.reset()
    end, bad = forked(walk)
    st.count('evaluations', end + 1)
    st.count('transitions', end + 1)
    st.count('traces')
    for i in range(end + 1):
        st.state((world.family, getattr(world, 'name', ''), tuple(mine[max(0, i - depth + 1):i + 1])))
    for o in refs:
        st.outcome((world.family, short(refs[o][0])))
    for i, of_result, what in bad:
        # the shortest end of the history that shows it
        for k in range(1, 5):
            h = mine[max(0, i - k):i + 1]
            w = check(h, *result(h))
            if w:
                names = [world.label(ops[x]) for x in h]
                st.fail('%s: %s' % (world.family, ' -> '.join(names)), 'the last of these operations %s' % w, {'history': names})
                break
        else:
            names = [world.label(ops[x]) for x in mine[:i + 1]]
            st.fail('%s: %s after a longer history' % (world.family, names[-1]), what, {'history': names})


FEW = ('parse', 'directives'), ('parse', 'plain'), ('parse', 'bad token'), ('parse', 'bad syntax'), ('parse', 'cut off'), ('parse', 'nettype'), ('generate', 'generate'), ('generate', 'function'), \
    ('analyse', 'two modules'), ('analyse', 'bad in function'), ('analyse', 'same names'), ('analyse', 'bad in instance'), ('analyse', 'no top'), ('analyse', 'generate'), ('analyse', 'process'), ('analyse', 'bad in process')


def run(ctx):
    th = ctx.thorough
    n = 8

    def work(u, st):
        kind, which, depth, part, parts = u
        if kind == 'tools':
            world = Tools()
            world.kept_dump()
            ops = world.ops() if which is None else [o for o in world.ops() if (o[0], 'broken' if o[1] < 0 else ALL[o[1]][0]) in which]
            explore(world, ops, depth, part, parts, st)
        elif kind == 'analysis':
            world = Analysis(which)
            explore(world, world.ops(), depth, part, parts, st)
        else:
            with tempfile.TemporaryDirectory() as d:
                world = Files(d)
                explore(world, world.ops(), depth, part, parts, st)

    units = [('files', None, ctx.pick(2, 3), p, ctx.pick(2, 16)) for p in range(ctx.pick(2, 16))]
    units += [('tools', None, ctx.pick(2, 3), p, ctx.pick(n, 16 * n)) for p in range(ctx.pick(n, 16 * n))]
    units += [('tools', FEW, ctx.pick(3, 4), p, ctx.pick(2 * n, 16 * n)) for p in range(ctx.pick(2 * n, 16 * n))]
    units += [('analysis', k, 2, p, 2) for k in range(len(DESIGNS)) for p in range(2)]
    if th:
        units += [('analysis', k, 3, p, 24) for k in range(len(DESIGNS)) for p in range(24)]
    with core.quiet():
        vp.parser()
        vp.analyze(TEXTS[0][2], 'm')
        ctx.explore(units, work)
    ctx.stats.sample([Tools.label(None, o) for o in (('parse', 1), ('analyse', 17), ('generate', 7))])
    ctx.rule = ('one state is one history: the last operations done on shared tool objects; transitions are operations done, each compared (tree, line numbers, directives, text, trees of the dataflow, exception) with the result of the same '
                'operation in a process in which nothing was done before; trees and dictionaries handed to the tools are dumped and compared too')
    ctx.bounds = {
        'tools': '%d texts, %d of which fail (in the lexer, the parser, or on the way through the analysis) x parse, generate, analyse: all histories of %d operations, and of %d of %d operations that leave something behind'
                 % (len(ALL), len(BAD), ctx.pick(2, 3), ctx.pick(3, 4), len(FEW)),
        'analysis': '%d designs: all histories of %d of about 45 operations of merge, walker, subset, optimiser, graph, control flow, active conditions and code generator on the same dictionaries' % (len(DESIGNS), ctx.pick(2, 3)),
        'files': 'one analyser whose file changes between runs, with failing preprocessing: histories of %d operations' % ctx.pick(2, 3),
    }
    ctx.assumptions = ['every history of the given length occurs as a part of a longer one (de Bruijn order), the single operations also from a fresh start',
                       'a graph generator collects what it generates, so each graph is made with a new one']
