"""C13 - item sets are sets.

An item set is an array of words of bits.  Its operations look at single bits, at whole words, and at the number of words, so
item numbers are taken from the first, last and inner bits of three words, and sets with every number of words that can hold
them (words that became empty included).  Every operation is evaluated in the exact domain (arrays with their lengths, machine
arithmetic) on all of these sets, and pairs of them, and its result compared with the operation on sets of numbers, as seen through all
the ways in which a set shows its contents."""
import itertools
from absint import C, isC, NULL, TooComplex
from drive import Drive, Undecided, Problem, find
from memory import MemInterp
from parallel import pmap
from facts import Broken

SET, IT = 'contextfree::item_set', 'contextfree::item_set::const_iterator'
class Bad(Exception): pass

class ItemInterp(MemInterp):
    """items are known by their identifier only"""
    def on_call(self, st, e, fn, obj, args):
        nm = (fn or {}).get('sn') or e.get('mn')
        cls = (fn or {}).get('cls') or e.get('cls') or ''
        if cls == 'contextfree::grammar' and nm == 'item_with_identifier':
            v = self.argval(st, args[0])
            if not isC(v): raise TooComplex('identifier of an item')
            return [(st, ('refto', ('O', 'item', v[1])))]
        if cls == 'contextfree::grammar' and nm == 'identifier_for_item':
            l = args[0][1]
            if l[0] == 'O' and l[1] == 'item': return [(st, C(l[2]))]
        return MemInterp.on_call(self, st, e, fn, obj, args)

GRAM = ('O', 'grammar')

class Items(Drive):
    def __init__(self, P): Drive.__init__(self, P, ItemInterp(P))
    def empty(self): return self.new(SET, ('contextfree::grammar *',), (('ptr', GRAM),))
    def build(self, conf):
        s, words = conf
        l = self.empty()
        need = max(s) // 32 + 1 if s else 0
        if words > need:
            self.call(l, SET, 'insert', ('int',), (C(32 * words - 1),))
        for x in s: self.call(l, SET, 'insert', ('int',), (C(x),))
        if words > need and 32 * words - 1 not in s: self.call(l, SET, 'erase', ('int',), (C(32 * words - 1),))
        return l
    def flag(self, v): return bool(self.num(v))
    def listed(self, loc):
        """identifiers in the order in which iteration shows them"""
        it = self.loc(self.call(loc, SET, 'begin'))
        out = []
        while True:
            end = self.loc(self.call(loc, SET, 'end'))
            if self.flag(self.call(it, IT, 'operator==', ('const_iterator',), (('refto', end),))):
                if self.flag(self.call(it, IT, 'operator!=', ('const_iterator',), (('refto', end),))): raise Bad('iterator is both equal and unequal to the end')
                return out
            r = self.call(it, IT, 'operator*')
            l = self.loc(r)
            if l[0] != 'O' or l[1] != 'item': raise Undecided('item of an iterator')
            if l[2] in out or len(out) > 40: raise Bad('iteration shows item %d again' % l[2])
            out.append(l[2])
            self.call(it, IT, 'operator++')
    def check(self, loc, want, probe):
        d = self.fork()
        for x in probe:
            r = d.flag(d.call(loc, SET, 'contains', ('int',), (C(x),)))
            if r != (x in want): raise Bad('item %d is %s' % (x, 'said to be in the set' if r else 'missing'))
        for x in (max(probe) + 200, -1, -33):
            if d.flag(d.call(loc, SET, 'contains', ('int',), (C(x),))): raise Bad('item %d is said to be in the set' % x)
        n = d.num(d.call(loc, SET, 'size'))
        if n != len(want): raise Bad('the size is %d' % n)
        if d.flag(d.call(loc, SET, 'empty')) != (not want): raise Bad('empty() is wrong')
        got = d.listed(loc)
        if sorted(got) != sorted(want): raise Bad('iteration shows the items {%s}' % ', '.join(map(str, got)))

def show(c): return '{%s}' % ', '.join(map(str, c[0])) + (' (%d words)' % c[1])
def confs(universe, words):
    out = []
    for n in range(len(universe) + 1):
        for s in itertools.combinations(universe, n):
            need = max(s) // 32 + 1 if s else 0
            for w in range(need, words + 1): out.append((s, w))
    return out

def guard(P, out, what, f, fn=None):
    try: f(); out.append(('ok', what))
    except Bad as x: out.append(('bad', (fn or {}).get('name', what), '%s: %s: %s' % (P.where(fn) if fn else '', what, x)))
    except Undecided as x: out.append(('unknown', '%s: %s' % (what, x)))
    except Problem as x: out.append(('bad', x.p[2], '%s: %s' % (what, x.text(P))))

def job_one(P, job):
    _, conf, uni, words = job
    out = []
    base = Items(P)
    s = set(conf[0])
    try: l = base.build(conf)
    except Problem as x: return [('bad', x.p[2], 'building %s: %s' % (show(conf), x.text(P)))]
    except Undecided as x: return [('unknown', 'building %s: %s' % (show(conf), x))]
    uni = sorted(set(uni) | {32 * words - 1})
    def built(): base.fork().check(l, s, uni)
    guard(P, out, 'the set %s' % show(conf), built, find(P, SET, 'insert', ('int',)))
    for x in uni + [32 * words + 5]:
        for op, sem, ret in (('insert', s | {x}, x not in s), ('erase', s - {x}, x in s)):
            for ty in ('int', 'item'):
                f = find(P, SET, op, (ty,), must=ty == 'int')
                if f is None: continue
                def one():
                    d = base.fork()
                    r = d.flag(d.run(f, l, (C(x),) if ty == 'int' else (('refto', ('O', 'item', x)),)))
                    if r != ret: raise Bad('the result is %s' % ('true' if r else 'false'))
                    d.check(l, sem, uni)
                guard(P, out, '%s of item %d on %s' % (op, x, show(conf)), one, f)
    f = find(P, SET, 'contains', ('item',), must=False)
    if f is not None:
        for x in uni:
            def con():
                d = base.fork()
                if d.flag(d.run(f, l, (('refto', ('O', 'item', x)),))) != (x in s): raise Bad('wrong answer for item %d' % x)
            guard(P, out, 'contains(item %d) on %s' % (x, show(conf)), con, f)
    def copy():
        d = base.fork()
        c = d.new(SET, ('item_set',), (('refto', l),))
        d.check(c, s, uni); d.check(l, s, uni)
        for x in uni:
            d2 = d.fork()
            d2.call(c, SET, 'erase' if x in s else 'insert', ('int',), (C(x),))
            d2.check(l, s, uni); d2.check(c, s ^ {x}, uni)
    guard(P, out, 'a copy of %s' % show(conf), copy, find(P, SET, 'item_set', ('item_set',)))
    def others():
        # the other constructors
        for ty, a in ((('contextfree::grammar &',), (('refto', GRAM),)), ((), ())):
            d = base.fork()
            if find(P, SET, 'item_set', ty, must=False) is None and ty: continue
            c = d.new(SET, ty, a)
            if ty:
                d.check(c, set(), uni)
                for x in s: d.call(c, SET, 'insert', ('int',), (C(x),))
            else:
                if d.num(d.call(c, SET, 'size')) or not d.flag(d.call(c, SET, 'empty')) or d.flag(d.call(c, SET, 'contains', ('int',), (C(uni[0]),))): raise Bad('a set made without a grammar is not empty')
                d.call(c, SET, 'operator=', ('item_set',), (('refto', l),))
            d.check(c, s, uni); d.check(l, s, uni)
    guard(P, out, '%s in a set made in another way' % show(conf), others, find(P, SET, 'insert', ('int',)))
    def selfs():
        for op in ('merge', 'operator='):
            d = base.fork()
            r = d.run(find(P, SET, op, ('item_set',)), l, (('refto', l),))
            if op == 'merge' and d.flag(r): raise Bad('merging a set with itself is said to change it')
            d.check(l, s, uni)
    guard(P, out, 'merging %s with itself and assigning it to itself' % show(conf), selfs)
    def dies():
        d = base.fork()
        dt = [m for m in P.methods_of.get(SET, []) if m.get('kind') == 'dtor' and m.get('body') is not None]
        if dt: d.run(dt[0], l, ())
    guard(P, out, 'the end of %s' % show(conf), dies)
    return out

def job_two(P, job):
    _, conf, uni, words = job
    out = []
    base = Items(P)
    s = set(conf[0])
    try: l = base.build(conf)
    except (Problem, Undecided): return out            # reported by job_one
    for other in confs(uni, words):
        t = set(other[0])
        d0 = base.fork()
        try: m = d0.build(other)
        except (Problem, Undecided): continue
        for op in ('operator==', 'operator!='):
            f = find(P, SET, op, ('item_set',))
            def eq():
                d = d0.fork()
                r = d.flag(d.run(f, l, (('refto', m),)))
                if r != ((s == t) == (op == 'operator==')): raise Bad('the result is %s' % r)
            guard(P, out, '%s of %s and %s' % (op, show(conf), show(other)), eq, f)
        fm = find(P, SET, 'merge', ('item_set',))
        def mg():
            d = d0.fork()
            r = d.flag(d.run(fm, l, (('refto', m),)))
            if r != (not t <= s): raise Bad('the result (has the set changed?) is %s' % r)
            d.check(l, s | t, uni); d.check(m, t, uni)
            d.call(l, SET, 'insert', ('int',), (C(uni[0]),)); d.check(m, t, uni)
        guard(P, out, 'merging %s into %s' % (show(other), show(conf)), mg, fm)
        fa = find(P, SET, 'operator=', ('item_set',))
        def asg():
            d = d0.fork()
            d.run(fa, l, (('refto', m),))
            d.check(l, t, uni); d.check(m, t, uni)
            x = uni[0]
            d.call(l, SET, 'erase' if x in t else 'insert', ('int',), (C(x),)); d.check(m, t, uni); d.check(l, t ^ {x}, uni)
        guard(P, out, 'assigning %s to %s' % (show(other), show(conf)), asg, fa)
    return out

JOBS = {'one': job_one, 'two': job_two}
PROG = None
def work(job): return JOBS[job[0]](PROG, job)

def run(P, ctx):
    global PROG
    PROG = P
    deep = ctx.tier == 'thorough'
    ctx.explanation = 'Every operation of sets of items, for all sets over the first, last and inner bits of up to three words, with every number of words, and all pairs of such sets.'
    ctx.assumptions = ['identifiers of items are not negative']
    u1 = (0, 1, 31, 32, 40, 63, 64, 95) if deep else (0, 1, 31, 32, 63, 64)
    u2 = (0, 5, 31, 32, 64) if deep else (0, 31, 32, 64)
    jobs = [('one', c, u1, 3) for c in confs(u1, 3)] + [('two', c, u2, 3) for c in confs(u2, 3)]
    for job, res in zip(jobs, pmap(work, jobs, 4)):
        ctx.count('sets' if job[0] == 'one' else 'sets_in_pairs')
        for r in res:
            if r[0] == 'ok': ctx.ok(r[1])
            elif r[0] == 'unknown': ctx.unknown(r[1])
            else: ctx.bad(r[1], r[2])
    ctx.need(ctx.discharged, 500, 'operations')
