"""State machines found by the control-flow analyser, as a set of edges that can be evaluated."""
from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
from pyverilog.dataflow import dataflow as D
from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer

from mc import dfv, sim, vp


class Control(object):
    def __init__(self, text, top='m', fsm_vars=None, cls=VerilogControlflowAnalyzer):
        an = vp.analyze(text, top)
        terms, binds = an.getTerms(), an.getBinddict()
        o = VerilogDataflowOptimizer(terms, binds)
        o.resolveConstant()
        kw = {} if fsm_vars is None else {'fsm_vars': fsm_vars}
        self.ca = cls(top, terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist(), **kw)
        self.flow = sim.Flow(terms, binds)
        self.by = {str(n): n for n in terms}

    def machines(self):
        self.found = {str(n): f for n, f in self.ca.getFiniteStateMachines().items()}
        return self.found

    def edges(self, name):
        """[(source or None for any, condition or None, destination)] of a machine, None when there is no such machine"""
        f = self.found.get(name)
        if f is None:
            return None
        r = [(None, c, d) for c, d in f.any.items()]
        for s, ds in f.fsm.items():
            r += [(s, c, d) for c, d in ds.items()]
        return r

    def true(self, cond, env):
        """whether a condition holds; env: name -> value"""
        if cond is None:
            return True
        v = self.flow.ev.value(cond, sim.Values(self.flow, env))
        if v[1] | v[2]:
            raise dfv.Skip('unknown')
        return v[0] != 0

    def taken(self, edges, state, env):
        """the states that the edges lead to"""
        return {d for s, c, d in edges if s in (None, state) and self.true(c, env)}


def cycles(graph):
    """every elementary cycle of {node: set of nodes}, each from its least node"""
    r = set()

    def go(start, path):
        for n in graph.get(path[-1], ()):
            if n == start:
                r.add(tuple(path))
            elif n > start and n not in path:
                go(start, path + [n])
    for n in graph:
        go(n, [n])
    return r


def terminals(t):
    if isinstance(t, D.DFTerminal):
        return {str(t.name)}
    r = set()
    if t is not None:
        for c in t.children():
            r |= terminals(c)
    return r
