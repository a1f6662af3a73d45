"""C12 - table lookups give what was put in.

Tables are filled and searched by code that looks at its input only through comparisons and the bits that select an entry of a
level.  The ranges of symbols, rows, and action lists put in are therefore taken from representatives around every boundary;
filling and looking up are evaluated in the exact domain (arrays with their lengths, machine arithmetic) and compared with the
map that was put in."""
import itertools
from absint import C, isC, NULL, TooComplex
from drive import Drive, Undecided, Problem, find
from memory import MemInterp
from parallel import pmap
from facts import Broken

RANGE = 'dfa::range<int>'
L1 = 'dfa::symbol_level<int, 3, 0>'
L2 = 'dfa::symbol_level<%s, 12, 2>' % L1
L3 = 'dfa::symbol_level<%s, 48, 4>' % L2
TOP = 0x7fffffff
class Bad(Exception): pass

class TabInterp(MemInterp):
    UNROLL = 1200

class Tab(Drive):
    def __init__(self, P): Drive.__init__(self, P, TabInterp(P))
    def range(self, lo, hi): return self.new(RANGE, ('int', 'int'), (C(lo), C(hi)))

def guard(P, out, what, f, fn=None):
    try: f(); out.append(('ok', what))
    except Bad as x: out.append(('bad', (fn or {}).get('name', what), '%s: %s: %s' % (P.where(fn) if fn else '', what, x)))
    except Undecided as x: out.append(('unknown', '%s: %s' % (what, x)))
    except Problem as x: out.append(('bad', x.p[2], '%s: %s' % (what, x.text(P))))

def show(rs): return ', '.join('%s..%s->%d' % (hex(a), 'end' if b == TOP else hex(b), v) for a, b, v in rs)
def want(rs, x):
    for a, b, v in rs:
        if a <= x < b: return v
    return -1

def disjoint(cuts, n):
    """all lists of n disjoint ranges between the cuts"""
    for t in itertools.combinations_with_replacement(range(len(cuts)), 2 * n):
        if all(t[2 * i] < t[2 * i + 1] for i in range(n)): yield tuple((cuts[t[2 * i]], cuts[t[2 * i + 1]]) for i in range(n))

def probes(rs, size):
    s = {0, 1, size - 1} | ({0x150, 0x20005, 0x20006, 0x10000000, 0x70000001} if size > 0x10000 else set())
    for a, b, v in rs:
        for x in (a - 1, a, a + 1, b - 2, b - 1, b, b + 1): s.add(x)
    return sorted(x for x in s if 0 <= x < size)

def job_levels(P, job):
    _, cls, size, sets = job
    out = []
    f = find(P, cls, 'add_range', ('int', 'range', 'int'))
    for rs in sets:
        what = 'symbols %s in a table of %d' % (show(rs), size)
        def one():
            d = Tab(P)
            t = d.new(cls)
            for a, b, v in rs: d.run(f, t, (C(0), ('refto', d.range(a, b)), C(v)))
            def same(d, t, whose):
                for x in (range(size) if size <= 16 else probes(rs, size)):
                    r = d.num(d.call(t, cls, 'lookup', ('int',), (C(x),)))
                    if r != want(rs, x): raise Bad('%slooking up symbol %s gives %d instead of %d' % (whose, hex(x), r, want(rs, x)))
            same(d.fork(), t, '')
            c = d.new(cls, ('symbol_level',), (('refto', t),)) if any(m.get('kind') == 'copyctor' for m in P.methods_of.get(cls, [])) else None
            if c is not None:
                dt = [m for m in P.methods_of.get(cls, []) if m.get('kind') == 'dtor' and m.get('body') is not None]
                same(d.fork(), c, 'in a copy: ')
                if dt:
                    d.run(dt[0], t, ())
                    same(d, c, 'in a copy, after the original is gone: ')
        guard(P, out, what, one, f)
    return out

def table_class(P, ch):
    c = 'dfa::symbol_table<%s, dfa::symbol_level_for<%s>>' % (ch, ch)
    if c not in P.recs: raise Broken('anchor vanished: ' + c)
    return c

def job_coded(P, job):
    _, ch, n, size, sets = job
    out = []
    cls = table_class(P, ch)
    add = find(P, cls, 'add_range', ('range', 'int'))
    hc = 'dfa::hard_coded_symbol_table<%s, %d>' % (ch, n)
    look = find(P, hc, 'lookup', (ch,))
    conv = conversion(P, level_class(P, cls))
    for rs in sets:
        what = 'symbols %s in a table of %s' % (show(rs), ch)
        def one():
            d = Tab(P)
            t = d.new(cls)
            for a, b, v in rs: d.run(add, t, (('refto', d.range(a, b)), C(v)))
            for x in probes(rs, size):
                r = d.num(d.call(t, cls, 'lookup', (ch,), (C(x),)))
                if r != want(rs, x): raise Bad('looking up symbol %s gives %d instead of %d' % (hex(x), r, want(rs, x)))
            r, ln = hard_coded(d, P, cls, t)
            if ln != d.I.sizes[r[1]]: raise Bad('the hard coded table has %d entries but says that it has %d' % (d.I.sizes[r[1]], ln))
            for i in range(ln):
                if d.st.store.get(('cell', r[1], i), ('uninit',))[0] == 'uninit': raise Bad('entry %d of the hard coded table has no value' % i)
            h = d.new(hc, ('int',), (r,))
            for x in probes(rs, size):
                r = d.num(d.run(look, h, (C(x),)))
                if r != want(rs, x): raise Bad('looking up symbol %s in the hard coded table gives %d instead of %d' % (hex(x), r, want(rs, x)))
        guard(P, out, what, one, conv)
    return out

FLAT = 'dfa::state_machine_flat_table'
COMPACT = 'dfa::state_machine_compact_table<true>'
def state_of(d, pairs):
    s = d.new('dfa::state', ('int',), (C(0),))
    for a, b in pairs: d.call(s, 'dfa::state', 'add', ('transition',), (('refto', d.new('dfa::transition', ('int', 'int'), (C(a), C(b)))),))
    return s

def job_rows(P, job):
    _, cls, n, rows = job
    out = []
    fill = find(P, cls, 'fill', ('int', 'state'))
    for pairs in rows:
        what = 'a row with the transitions %s' % (', '.join('%d->%d' % x for x in pairs) or 'none')
        def one():
            d = Tab(P)
            r = d.new(cls)
            d.run(fill, r, (C(n), ('refto', state_of(d, pairs))))
            for x in range(n):
                v = d.num(d.call(r, cls, 'operator[]', ('int',), (C(x),)))
                if v != dict(pairs).get(x, -1): raise Bad('symbol set %d gives state %d instead of %d' % (x, v, dict(pairs).get(x, -1)))
        guard(P, out, what, one, fill)
    return out

def machine_classes(P):
    return [c for c in P.recs if c.startswith('dfa::state_machine<wchar_t, dfa::state_machine_')]

def job_machines(P, job):
    """a state machine made from a deterministic automaton does what the automaton's transitions say"""
    _, cls, machines = job
    out = []
    ctor = find(P, cls, 'state_machine', ('ndfa',))
    for ranges, states, trans in machines:
        what = 'an automaton of %d states with the transitions %s' % (states, ', '.join('%d-%s->%d' % (a, '%s..%s' % tuple(hex(q) for q in ranges[i]), b) for a, i, b in trans) or 'none')
        def one():
            d = Tab(P)
            n = d.new('dfa::ndfa')
            for i in range(1, states): d.call(n, 'dfa::ndfa', 'add_state', (), ())
            for a, i, b in trans:
                d.call(n, 'dfa::ndfa', 'add_transition', ('int', 'symbol_set', 'int'), (C(a), ('refto', d.new('dfa::symbol_set', ('range',), (('refto', d.range(*ranges[i])),))), C(b)))
            m = d.new(cls, ('ndfa',), (('refto', n),))
            xs = sorted({x for lo, hi in ranges for x in (lo - 1, lo, hi - 1, hi)})
            for st in range(-1, states + 1):
                for x in xs:
                    w = -1
                    for a, i, b in trans:
                        if a == st and ranges[i][0] <= x < ranges[i][1]: w = b
                    v = d.num(d.call(m, cls, 'run', ('int', 'wchar_t'), (C(st), C(x))))
                    if v != w: raise Bad('symbol %s in state %d leads to state %d instead of %d' % (hex(x), st, v, w))
        guard(P, out, what, one, ctor)
    return out

HARD = 'dfa::hard_coded_symbol_table<wchar_t, 2>'
TABLED = 'dfa::state_machine_tables<wchar_t, %s>' % HARD
ENTRY = 'dfa::state_machine_compact_table<false>::entry'
def conversion(P, lc):
    todo, conv = [lc], None
    while todo and conv is None:
        c = todo.pop()
        conv = find(P, c, 'to_hard_coded_table', ('unsigned long',), must=False)
        todo += [P.recs[b]['name'] if 'name' in P.recs[b] else b for b in (P.recs.get(c) or {}).get('bases', []) if b in P.recs]
    if conv is None: raise Broken('anchor vanished: to_hard_coded_table of ' + lc)
    return conv
def level_class(P, cls):
    tf = [f for f in P.all_fields(cls) if f[1]['n'] == 'table']
    if not tf: raise Broken('anchor vanished: ' + cls + '::table')
    return tf[0][1]['ti']['t']
def hard_coded(d, P, cls, t):
    """the hard coded table made from a symbol table -> (pointer, size)"""
    sz = d.I.newloc('size')
    d.st.store[sz] = C(0)
    r = d.val(d.run(conversion(P, level_class(P, cls)), ('fld', t, 'table'), (('refto', sz),)))
    if r[0] != 'it' or r[1][0] != 'A': raise Undecided('the hard coded table')
    return r, d.num(('refto', sz))

def job_tabled(P, job):
    """the state machine of a generated parser, over the tables that a generated parser has"""
    _, machines = job
    out = []
    run = find(P, TABLED, 'run', ('int', 'wchar_t'))
    cls = table_class(P, 'wchar_t')
    for ranges, states, trans in machines:
        what = 'tables for %d states with the transitions %s' % (states, ', '.join('%d-%s->%d' % (a, '%s..%s' % tuple(hex(q) for q in ranges[i]), b) for a, i, b in trans) or 'none')
        def one():
            d = Tab(P)
            t = d.new(cls)
            for i, (lo, hi) in enumerate(ranges): d.call(t, cls, 'add_range', ('range', 'int'), (('refto', d.range(lo, hi)), C(i)))
            h = d.new(HARD, ('int',), (hard_coded(d, P, cls, t)[0],))
            es = sorted(trans)
            ea = d.I.new_block(d.st, len(es), ENTRY)
            for i, (a, x, b) in enumerate(es):
                d.st.store[('fld', ('cell', ea, i), 'symbolSet')] = C(x)
                d.st.store[('fld', ('cell', ea, i), 'state')] = C(b)
            sa = d.I.new_block(d.st, states + 1, ENTRY + ' *')
            for i in range(states + 1): d.st.store[('cell', sa, i)] = ('it', ea, C(len([1 for x in es if x[0] < i])))
            m = d.new(TABLED, ('hard_coded_symbol_table', 'entry', 'int'), (('refto', h), ('it', sa, C(0)), C(states)))
            for st in range(-1, states + 1):
                for x in sorted({x for lo, hi in ranges for x in (lo - 1, lo, hi - 1, hi)}):
                    w = -1
                    for a, i, b in trans:
                        if a == st and ranges[i][0] <= x < ranges[i][1]: w = b
                    v = d.num(d.run(run, m, (C(st), C(x))))
                    if v != w: raise Bad('symbol %s in state %d leads to state %d instead of %d' % (hex(x), st, v, w))
        guard(P, out, what, one, run)
    return out

JOBS = {'tabled': job_tabled, 'rows': job_rows, 'machines': job_machines, 'levels': job_levels, 'coded': job_coded}
PROG = None
def work(job): return JOBS[job[0]](PROG, job)

def labelled(cuts, n, orders=True):
    """lists of n disjoint ranges put in in every order, under different and under shared numbers"""
    out = []
    for rs in disjoint(cuts, n):
        for o in itertools.permutations(range(n)) if orders else [range(n)]:
            out.append(tuple((rs[i][0], rs[i][1], i + 1) for i in o))
        if n > 1: out.append(tuple((a, b, 3) for a, b in rs))
    return out
def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]

def run(P, ctx):
    global PROG
    PROG = P
    deep = ctx.tier == 'thorough'
    ctx.explanation = 'Filling and searching the tables of the library, evaluated for representatives of everything that can be put in.'
    jobs = []
    c2 = (0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, TOP) if deep else (0, 1, 3, 4, 5, 8, 11, 12, 16, TOP)
    c3 = (0, 1, 4, 7, 16, 17, 32, 48, 63, 64, TOP) if deep else (0, 3, 4, 16, 17, 32, 64, TOP)
    for cls, size, cuts in ((L2, 16, c2), (L3, 64, c3)):
        sets = labelled(cuts, 1) + labelled(cuts, 2) + labelled(cuts[:7], 3, deep)
        jobs += [('levels', cls, size, c) for c in chunks(sets, 40)]
    w = (0, 0x61, 0xff, 0x100, 0x101, 0x200, 0xff00, 0x10000) if deep else (0, 0x61, 0x100, 0x150, 0x200, 0x10000)
    sets = labelled(w, 1) + labelled(w, 2)
    jobs += [('coded', 'wchar_t', 2, 0x10000, c) for c in chunks(sets, 4)]
    b = (0, 1, 0x61, 0x80, 0xff, 0x100)
    jobs += [('coded', 'unsigned char', 1, 0x100, c) for c in chunks(labelled(b, 1) + labelled(b, 2), 6)]
    i4 = [((0x150, 0x160, 1),), ((0x20005, 0x20105, 1),), ((0x20100, 0x40001, 1),), ((0x70000001, 0x70000003, 1), (0x150, 0x151, 2)), ((0x1ffff00, 0x2000100, 1),)]
    if deep: i4 += [((0x0, 0x2000000, 1),), ((0x2000000, 0x3000000, 1), (0x3000000, 0x3000100, 2)), ((0x150, 0x20005, 1), (0x20005, 0x70000001, 2)), ((0xff, 0x100, 2), (0xffff, 0x10000, 1)), ((0xffffff, 0x1000000, 1),)]
    jobs += [('coded', 'int', 4, 1 << 31, [c]) for c in i4]
    n = 5 if deep else 4
    rows = [p for k in range(n + 1) for c in itertools.combinations(range(n), k) for p in (tuple((x, (x * 2 + 1) % 3) for x in c), tuple((x, 7 - x) for x in reversed(c)))]
    jobs += [('rows', cls, n, c) for cls in (FLAT, COMPACT) for c in chunks(rows, 8)]
    rg = ((0x61, 0x63), (0x63, 0x180))
    tr = [(a, i, b) for a in range(2) for i in range(2) for b in range(2)]
    ms = []
    for k in range(4 if not deep else 5):
        for t in itertools.combinations(tr, k):
            if len({x[:2] for x in t}) == k: ms.append((rg, 2, t))
    jobs += [('machines', cls, c) for cls in machine_classes(P) for c in chunks(ms, 6)]
    jobs += [('tabled', c) for c in chunks(ms, 6)]
    for job, res in zip(jobs, pmap(work, jobs, 1)):
        for r in res:
            ctx.count({'levels': 'small_tables', 'coded': 'symbol_tables', 'rows': 'rows', 'machines': 'state_machines', 'tabled': 'state_machines'}[job[0]])
            if r[0] == 'ok': ctx.ok(r[1])
            elif r[0] == 'unknown': ctx.unknown(r[1])
            else: ctx.bad(r[1], r[2])
    ctx.need(ctx.discharged, 200, 'tables')
