"""C14 - symbol sets.

A set of symbols is touched by its operations only through comparisons of range bounds, so its values are taken from the
ordering domain: the line of symbols is cut into consecutive cells, every bound is one of the cuts.  For all sets that
are unions of cells every operation is evaluated (abstract interpretation with exact containers) and its result, seen through
the set's own operations, must be the union of exactly the cells set theory gives.  Maps of sets and their deduplication
are evaluated for all small collections of such sets."""
import itertools
from absint import C, isC, NULL, TooComplex
from drive import Drive, Undecided, Problem, find
from parallel import pmap
from facts import Broken

SET, RANGE, MAP, REMAP = 'dfa::symbol_set', 'dfa::range<int>', 'dfa::symbol_map', 'dfa::remapped_symbol_map'
TOP = 0x7fffffff
W = 7                                  # the width of a cell carries no meaning: only the order of bounds does

class Bad(Exception): pass

class Syms(Drive):
    def __init__(self, P, n):
        Drive.__init__(self, P)
        self.cuts = [W * i for i in range(n)] + [TOP]      # cell i is cuts[i]..cuts[i+1]; the last one reaches to the end
        self.cells = n
    def range(self, lo, hi): return self.new(RANGE, ('int', 'int'), (C(self.cuts[lo]), C(self.cuts[hi])))
    def empty(self): return self.new(SET)
    def runs(self, s):
        """maximal ranges of a set of cells"""
        out, i = [], 0
        while i < self.cells:
            if s >> i & 1:
                j = i
                while s >> j & 1: j += 1
                out.append((i, j)); i = j
            else: i += 1
        return out
    def build(self, s):
        l = self.empty()
        for lo, hi in self.runs(s): self.call(l, SET, 'operator|=', ('range',), (('refto', self.range(lo, hi)),))
        return l
    def ranges(self, loc):
        """the ranges a set shows through its iterators"""
        b = self.val(self.call(loc, SET, 'begin'))
        if b[0] != 'nit': raise Undecided('iterator of a set')
        items = self.I.nodes(self.st, b[1])
        if items is None: raise Undecided('contents of a set')
        return [tuple(self.num(self.call(x[1], RANGE, m)) for m in ('lower', 'upper')) for x in items]
    def members(self, loc):
        """cells of the set as its ranges show them; every cell fully in or out, canonical, agreeing with operator[]"""
        got, last = 0, None
        for lo, hi in self.ranges(loc):
            if lo not in self.cuts or hi not in self.cuts: raise Bad('has the range %d..%d, no bound of which was ever given' % (lo, hi))
            if hi <= lo: raise Bad('has an empty range')
            if last is not None and lo <= last: raise Bad('has ranges that touch or overlap, so that equal sets can compare as different')
            last = hi
            for i in range(self.cuts.index(lo), self.cuts.index(hi)): got |= 1 << i
        for i in range(self.cells):
            for p in (self.cuts[i], self.cuts[i] + 2, self.cuts[i + 1] - 1):
                r = self.num(self.call(loc, SET, 'operator[]', ('int',), (C(p),)))
                if bool(r) != bool(got >> i & 1): raise Bad('says that a symbol %s its ranges is %s' % (('in', 'missing') if got >> i & 1 else ('outside', 'there')))
        if bool(self.num(self.call(loc, SET, 'empty'))) != (got == 0): raise Bad('is wrong about being empty')
        return got
    def show(self, s): return '{' + ','.join('%d..%d' % (a, b) for a, b in self.runs(s)) + '}'

def full(n): return (1 << n) - 1

# operations of a set with a range or a set; the result in terms of cells
OPS = [('operator|=', True, lambda a, b, u: a | b), ('exclude', True, lambda a, b, u: a & ~b & u), ('operator&=', True, lambda a, b, u: a & b),
       ('operator|', False, lambda a, b, u: a | b), ('operator&', False, lambda a, b, u: a & b), ('excluding', False, lambda a, b, u: a & ~b & u)]

def job_sets(P, job):
    kind, n, a = job
    out = []
    u = full(n)
    def check(what, fn, dr, want, res):
        try:
            r = dr.members(res)
            if r != want: out.append(('bad', what, '%s: %s gives %s instead of %s' % (P.where(fn), what, dr.show(r), dr.show(want)), fn['name'])); return
            out.append(('ok', what))
        except Bad as x: out.append(('bad', what, '%s: the result of %s %s' % (P.where(fn), what, x), fn['name']))
    def guard(what, f):
        try: f()
        except Undecided as x: out.append(('unknown', '%s: %s' % (what, x)))
        except Problem as x: out.append(('bad', what, '%s: %s' % (what, x.text(P)), x.p[2]))
    base = Syms(P, n)
    try: la = base.build(a)
    except Problem as x: return [('bad', 'build', 'building %s: %s' % (base.show(a), x.text(P)), x.p[2])]
    except Undecided as x: return [('unknown', 'building a set: %s' % x)]
    if kind == 'one':
        def chk(): check('the union of the ranges %s' % base.show(a), find(P, SET, 'operator|=', ('range',)), base.fork(), a, la)
        guard('build', chk)
        def built():                       # cell by cell, in other orders
            cells = [i for i in range(n) if a >> i & 1]
            for order in itertools.permutations(cells) if len(cells) <= 3 else [cells, cells[::-1], cells[::2] + cells[1::2]]:
                dr = Syms(P, n)
                l = dr.empty()
                for i in order: dr.call(l, SET, 'operator|=', ('range',), (('refto', dr.range(i, i + 1)),))
                check('adding the ranges %s in this order' % ' '.join('%d..%d' % (i, i + 1) for i in order), find(P, SET, 'operator|=', ('range',)), dr, a, l)
        guard('build in any order', built)
        def inv():
            dr = base.fork(); f = find(P, SET, 'invert', ())
            dr.run(f, la, ()); check('inverting %s' % base.show(a), f, dr, u & ~a, la)
        guard('invert', inv)
        def inv2():
            dr = base.fork(); f = find(P, SET, 'operator~', ())
            r = dr.loc(dr.run(f, la, ())); check('~%s' % base.show(a), f, dr.fork(), u & ~a, r); check('%s after its complement was made' % base.show(a), f, dr, a, la)
        guard('operator~', inv2)
        def cp():
            dr = base.fork(); f = find(P, SET, 'operator|=', ('range',))
            l = dr.new(SET, ('symbol_set',), (('refto', la),)); check('copying %s' % base.show(a), f, dr, a, l)
        guard('copy', cp)
        def one():
            for lo, hi in base.runs(a)[:1] if len(base.runs(a)) == 1 else []:
                dr = base.fork(); l = dr.new(SET, ('range',), (('refto', dr.range(lo, hi)),))
                check('the set of the range %d..%d' % (lo, hi), find(P, SET, 'symbol_set', ('range',)), dr, a, l)
        guard('set of a range', one)
        for lo in range(n):
            for hi in range(lo + 1, n + 1):
                b = sum(1 << i for i in range(lo, hi))
                for op, inplace, sem in OPS:
                    f = find(P, SET, op, ('range',), must=False)
                    if f is None: continue
                    def ro():
                        dr = base.fork()
                        r = dr.run(f, la, (('refto', dr.range(lo, hi)),))
                        what = '%s %s of the range %d..%d' % (base.show(a), op, lo, hi)
                        check(what, f, dr.fork(), sem(a, b, u), la if inplace else dr.loc(r))
                        if not inplace: check('%s, used in %s' % (base.show(a), op), f, dr, a, la)
                    guard('%s with a range' % op, ro)
    else:
        for b in range(1 << n):
            d0 = base.fork()
            try: lb = d0.build(b)
            except (Problem, Undecided): continue
            for op, inplace, sem in OPS:
                f = find(P, SET, op, ('symbol_set',), must=False)
                if f is None: continue
                def so():
                    dr = d0.fork()
                    r = dr.run(f, la, (('refto', lb),))
                    what = '%s %s of %s' % (base.show(a), op, base.show(b))
                    check(what, f, dr.fork(), sem(a, b, u), la if inplace else dr.loc(r))
                    check('%s, used in %s' % (base.show(b), op), f, dr, b, lb)
                guard('%s with a set' % op, so)
            def cmpr():
                for op, want in (('operator==', a == b), ('operator!=', a != b)):
                    f = find(P, SET, op, ('symbol_set',))
                    dr = d0.fork()
                    r = dr.num(dr.run(f, la, (('refto', lb),)))
                    what = '%s %s %s' % (base.show(a), op, base.show(b))
                    if bool(r) != want: out.append(('bad', what, '%s: %s is %s' % (P.where(f), what, bool(r)), f['name']))
                    else: out.append(('ok', what))
            guard('comparing sets', cmpr)
        def self_ops():
            for op, inplace, sem in OPS:
                if not inplace: continue
                f = find(P, SET, op, ('symbol_set',), must=False)
                if f is None: continue
                dr = base.fork()
                dr.run(f, la, (('refto', la),))
                check('%s %s of itself' % (base.show(a), op), f, dr, sem(a, a, u), la)
        guard('operations of a set with itself', self_ops)
    return out

def job_ranges(P, job):
    """relations of two ranges"""
    _, n, _ = job
    out = []
    allr = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    for a in allr:
        for b in allr:
            d = Syms(P, n)
            la, lb = d.range(*a), d.range(*b)
            gap = max(a[0], b[0]) - min(a[1], b[1])
            want = dict(overlaps=gap < 0, can_merge=gap <= 0)
            for m, w in want.items():
                f = find(P, RANGE, m, ('range',), must=False)
                if f is None: continue
                what = '%d..%d %s %d..%d' % (a + (m,) + b)
                try:
                    r = d.num(d.run(f, la, (('refto', lb),)))
                    out.append(('ok', what) if bool(r) == w else ('bad', what, '%s: %s is %s' % (P.where(f), what, bool(r)), f['name']))
                except Undecided as x: out.append(('unknown', '%s: %s' % (what, x)))
            f = find(P, RANGE, 'neighbours', ('range',), must=False)
            if f is not None:
                what = '%d..%d neighbours %d..%d' % (a + b)
                r = d.num(d.run(f, la, (('refto', lb),)))
                out.append(('ok', what) if bool(r) == (gap == 0) else ('bad', what, '%s: %s is %s' % (P.where(f), what, bool(r)), f['name']))
            f = find(P, RANGE, 'merge', ('range',), must=False)
            if f is not None and gap <= 0:
                try:
                    l = d.loc(d.run(f, la, (('refto', lb),)))
                    r = tuple(d.num(d.call(l, RANGE, m)) for m in ('lower', 'upper'))
                    w = (d.cuts[min(a[0], b[0])], d.cuts[max(a[1], b[1])])
                    what = '%d..%d merge %d..%d' % (a + b)
                    out.append(('ok', what) if r == w else ('bad', what, '%s: %s is %s' % (P.where(f), what, r), f['name']))
                except Undecided as x: out.append(('unknown', 'merge: %s' % x))
    return out

def job_map(P, job):
    """a map of the given sets: identifiers, and deduplication"""
    _, n, sets = job
    out = []
    d = Syms(P, n)
    idf = find(P, MAP, 'identifier_for_symbols', ('symbol_set',))
    fnd = find(P, MAP, 'find_identifier_for_symbols', ('symbol_set',))
    get = find(P, MAP, 'operator[]', ('int',))
    ded = find(P, REMAP, 'deduplicate', ('symbol_map',))
    what = 'a map of %s' % ' '.join(d.show(s) for s in sets)
    def bad(f, msg): out.append(('bad', what, '%s: %s: %s' % (P.where(f), what, msg), f['name']))
    try:
        m = d.new(MAP)
        ids = {}
        for s in sets:
            if s not in ids:
                r = d.num(d.run(fnd, m, (('refto', d.build(s)),)))
                if r >= 0: bad(fnd, 'a set that was never added is found'); return out
            i = d.num(d.run(idf, m, (('refto', d.build(s)),)))
            if s in ids and ids[s] != i: bad(idf, 'the same set gets two identifiers'); return out
            if s not in ids and i in ids.values(): bad(idf, 'two sets get the same identifier'); return out
            if i < 0 or i >= len(sets): bad(idf, 'identifiers are not assigned from 0 upwards'); return out
            ids[s] = i
        for s, i in ids.items():
            r = d.num(d.run(fnd, m, (('refto', d.build(s)),)))
            if r != i: bad(fnd, 'a set that was added is found under another identifier'); return out
            if d.members(d.loc(d.run(get, m, (C(i),)))) != s: bad(get, 'the set of identifier %d is not the one that was added' % i); return out
        c = d.num(d.call(m, MAP, 'count_sets'))
        if c != len(ids): bad(idf, 'the number of sets is %d' % c); return out
        out.append(('ok', what))
        r = d.val(d.run(ded, None, (('refto', m),)))
        if r[0] != 'ptr': raise Undecided('result of deduplicate')
        nm = r[1]
        cnt = d.num(d.call(nm, MAP, 'count_sets'))
        new = {}
        for i in range(cnt): new[i] = d.members(d.loc(d.run(get, nm, (C(i),))))
        ns = find(P, REMAP, 'new_symbols', ('int',))
        whatd = 'deduplicating ' + what
        for i in new:
            for j in new:
                if i < j and new[i] & new[j]: bad(ded, 'after deduplicating, two sets share symbols'); return out
        for s, i in ids.items():
            l = d.loc(d.run(ns, nm, (C(i),)))
            v = d.I.nodes(d.st, l)
            if v is None: raise Undecided('new symbols')
            v = [x[1] if isC(x) else None for x in v]
            if None in v: raise Undecided('new symbols')
            if any(x not in new for x in v): bad(ded, 'set %s is mapped to an identifier that does not exist' % d.show(s)); return out
            if s == 0:
                if [new[x] for x in v] != [0]: bad(ded, 'the empty set (no input) is not mapped to itself'); return out
                continue
            if sum(new[x] for x in v) != s: bad(ded, 'set %s is mapped to sets that together are %s' % (d.show(s), d.show(sum(new[x] for x in v)))); return out
        allin = 0
        for s in ids: allin |= s
        if sum(new.values()) != allin: bad(ded, 'deduplicating changes the symbols that are in any set'); return out
        out.append(('ok', whatd))
    except Bad as x: bad(ded, 'a set ' + str(x))
    except Undecided as x: out.append(('unknown', '%s: %s' % (what, x)))
    except Problem as x: out.append(('bad', what, '%s: %s' % (what, x.text(P)), x.p[2]))
    return out

JOBS = {'one': job_sets, 'two': job_sets, 'ranges': job_ranges, 'map': job_map}
PROG = None
def work(job): return JOBS[job[0]](PROG, job)

def run(P, ctx):
    global PROG
    PROG = P
    deep = ctx.tier == 'thorough'
    ctx.explanation = 'Every operation of symbol sets and ranges for all sets that are unions of consecutive cells (bounds known by order only); identifiers and deduplication of maps for all small collections of such sets.'
    ctx.assumptions = ['symbols from 0 on (the special symbols below 0 are outside complements)', 'ranges given are not empty']
    n1, n2, n3 = (6, 5, 5) if deep else (5, 4, 4)
    jobs = [('ranges', 4, 0)]
    jobs += [('one', n1, a) for a in range(1 << n1)]
    jobs += [('two', n2, a) for a in range(1 << n2)]
    lists = [(s,) for s in range(1 << n3)] + [t for t in itertools.product(range(1 << n3), repeat=2)]
    lists += [t for t in itertools.combinations(range(1, 1 << (n3 if deep else 3)), 3)]
    lists += [(0, 1, 3), (3, 0, 6), (5, 7, 0, 2)]
    jobs += [('map', n3, t) for t in lists]
    for job, res in zip(jobs, pmap(work, jobs, 4)):
        ctx.count({'ranges': 'pairs_of_ranges', 'one': 'sets', 'two': 'sets_in_pairs', 'map': 'maps'}[job[0]])
        for r in res:
            if r[0] == 'ok': ctx.ok(r[1])
            elif r[0] == 'unknown': ctx.unknown(r[1])
            else: ctx.bad('%s:%s' % (job[0], r[3]), r[2])
    ctx.need(ctx.discharged, 1000, 'operations')
