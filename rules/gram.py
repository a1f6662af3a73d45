"""Building grammars, items, rules and actions for the exact interpreter."""
from absint import C, isC, NULL, TooComplex
from drive import Drive, Undecided, Problem, find
from memory import MemInterp
import exact
from facts import Broken

CF = 'contextfree::'
def cont(P, of):
    """the container class for objects of a class"""
    c = [k for k in P.recs if k.startswith(('util::container<%s,' % of, 'util::container<%s>' % of)) and k.endswith('>')]
    if len(c) != 1: raise Broken('anchor vanished: container of ' + of)
    return c[0]

class GramInterp(MemInterp):
    UNROLL = 1200
    MAXDEPTH = 200
    RECURSION = 60
    FROM_START = True
    STATIC_INIT = True
    def decl_var(self, v, st):
        t = self.strip(v['ti'].get('t', ''))
        if self.is_rec(t) and not v['ti'].get('ref') and not v.get('static'): st.ghost[('type', ('L', self.frame, v['id']))] = t
        return MemInterp.decl_var(self, v, st)
    def distinct_root(self, l): return l[0] in 'LOG'         # each a named object of its own

class Gram(Drive):
    INTERP = GramInterp
    def __init__(self, P):
        Drive.__init__(self, P, self.INTERP(P))
        self.cache = {}
    def container(self, cls, obj):
        """a container of an object nobody else owns"""
        return self.new(cls, ('*', 'bool'), (('ptr', obj), C(1)))
    def item(self, kind, sym=None):
        k = (kind, sym)
        if k not in self.cache:
            o = self.new(CF + kind, ('int',) if sym is not None else (), (C(sym),) if sym is not None else ())
            self.cache[k] = self.container(cont(self.P, CF + 'item'), o)
        return self.cache[k]
    def rule(self, nt, items):
        k = ('rule', nt, items)
        if k not in self.cache:
            o = self.new(CF + 'rule', ('container<contextfree::item',), (('refto', self.item(*nt)),))
            for i in items: self.call(o, CF + 'rule', 'operator<<', ('container<contextfree::item',), (('refto', self.item(*i)),))
            self.cache[k] = self.container(cont(self.P, CF + 'rule'), o)
        return self.cache[k]
    def ident(self, g, item):
        return self.num(self.call(g, CF + 'grammar', 'identifier_for_item', ('container',), (('refto', self.item(*item)),)))
    def insert(self, loc, cls, x):
        try: r = self.I.ord_call({'l': 0, 'k': 'mcall', 't': ''}, self.st, loc, [('refto', x)], 'insert', None, cls)
        except TooComplex as e: raise Undecided(str(e)[:150])
        if not r or len(r) != 1: raise Undecided('inserting into a set')
        self.st = r[0][0]
