"""C04 - transformations of automata keep their language and their actions.

Automata over a few states and (overlapping) symbol sets go through the code's own transformations in the exact domain; the automaton that
comes out is read back through its public operations and compared with the one put in by walking both at once (subsets of states on
either side), symbol by symbol of the partition the sets make, so that the comparison is for all texts."""
import itertools, random
import exact
from absint import C, isC, NULL, TooComplex
from drive import Drive, Undecided, Problem, find
from memory import MemInterp
from parallel import pmap
from facts import Broken

N, SET, RANGE, ACT = 'dfa::ndfa', 'dfa::symbol_set', 'dfa::range<int>', 'dfa::accept_action'
class Bad(Exception): pass

class AutInterp(MemInterp):
    UNROLL = 1200
    FROM_START = True
    STATIC_INIT = True
    def distinct_root(self, l): return l[0] in 'LOG'
    DOWN = False               # the order of addresses is not known: either that in which they first come up or its opposite is taken
    def lessv(self, st, a, b, t, comp=None):
        if comp is None and a[0] == b[0] == 'ptr' and a != b:
            o = self.__dict__.setdefault('seen', {})
            for x in (a, b): o.setdefault(x, len(o))
            return (o[a] < o[b]) != self.DOWN
        return MemInterp.lessv(self, st, a, b, t, comp)
    def decl_var(self, v, st):
        t = self.strip(v['ti'].get('t', ''))
        if self.is_rec(t) and not v['ti'].get('ref') and not v.get('static'): st.ghost[('type', ('L', self.frame, v['id']))] = t
        return MemInterp.decl_var(self, v, st)

class Aut(Drive):
    def __init__(self, P): Drive.__init__(self, P, AutInterp(P))
    def set_of(self, ranges):
        s = self.new(SET)
        for lo, hi in ranges: self.call(s, SET, 'operator|=', ('range',), (('refto', self.new(RANGE, ('int', 'int'), (C(lo), C(hi)))),))
        return s
    def build(self, A):
        """A = (number of states, {(state, set, state)}, {state: ((symbol, eager), ...)}, sets) -> location of the ndfa"""
        n, trans, acts, sets = A
        l = self.new(N)
        for i in range(1, n): self.call(l, N, 'add_state')
        for a, s, b in trans: self.call(l, N, 'add_transition', ('int', 'symbol_set', 'int'), (C(a), ('refto', self.set_of(sets[s])), C(b)))
        for q in sorted(acts):
            for sy, ea in acts[q]: self.call(l, N, 'accept', ('int', 'accept_action'), (C(q), ('refto', self.new(ACT, ('int', 'bool'), (C(sy), C(1 if ea else 0))))))
        return l
    def delete(self, l):
        try: r = self.I.destroy(self.st, l, N)
        except TooComplex as x: raise Undecided(str(x)[:150])
        except exact.Problem as x: raise Problem(x.args[0])
        if len(r) != 1: raise Undecided('%d outcomes of the destructor' % len(r))
        self.st = r[0]
        self.I.kill(self.st, l, 'an object is used after it has been deleted')
        if self.st.ghost.get('problem'): raise Problem(self.st.ghost['problem'])
    # ---- reading an automaton
    def ranges(self, loc):
        b = self.val(self.call(loc, SET, 'begin'))
        items = self.I.nodes(self.st, b[1]) if b[0] == 'nit' else None
        if items is None: raise Undecided('contents of a set of symbols')
        return [tuple(self.num(self.call(x[1], RANGE, m)) for m in ('lower', 'upper')) for x in items]
    def read(self, l):
        """-> (number of states, [{(ranges, target)}], [[(symbol, eager)]], deterministic)"""
        d = self.fork()
        n = d.num(d.call(l, N, 'count_states'))
        syms = d.loc(d.call(l, N, 'symbols'))
        cache = {}
        out, acts = [], []
        for i in range(n):
            s = d.loc(d.call(l, N, 'get_state', ('int',), (C(i),)))
            if d.num(d.call(s, 'dfa::state', 'identifier')) != i: raise Bad('state %d has the identifier %d' % (i, d.num(d.call(s, 'dfa::state', 'identifier'))))
            b = d.val(d.call(s, 'dfa::state', 'begin'))
            items = d.I.nodes(d.st, b[1]) if b[0] == 'nit' else None
            if items is None: raise Undecided('transitions of a state')
            ts = set()
            for x in items:
                x = d.loc(x)
                y, t = (d.num(d.call(x, 'dfa::transition', m)) for m in ('symbol_set', 'new_state'))
                if not 0 <= t < n: raise Bad('a transition leads from state %d to state %d, of %d' % (i, t, n))
                if y not in cache: cache[y] = tuple(d.ranges(d.loc(d.call(syms, 'dfa::symbol_map', 'operator[]', ('int',), (C(y),)))))
                ts.add((y, cache[y], t))
            out.append(ts)
            v = d.loc(d.call(l, N, 'actions_for_state', ('int',), (C(i),)))
            r = d.I.read(d.st, v)
            els = d.I.elements(d.st, v) if hasattr(d.I, 'elements') else None
            acts.append(d.actions(v))
        return n, out, acts, bool(d.num(d.call(l, N, 'is_dfa')))
    def actions(self, v):
        r = self.I.read(self.st, v)
        if r[0] == 'empty': return frozenset()
        if r[0] != 'vec': raise Undecided('actions of a state')
        out = set()
        for x in r[1]:
            if x[0] == 'uninit' or x[0] != 'ptr': raise Undecided('an action')
            self.alive(x[1])
            out.add((self.num(self.call(x[1], ACT, 'symbol')), bool(self.num(self.call(x[1], ACT, 'eager')))))
        return frozenset(out)
    def alive(self, loc):
        if ('dead', loc) in self.st.ghost: raise Bad('an action that was deleted is left in the automaton')

EPS = ()
def cells(sets, read):
    cuts = sorted({x for s in sets for r in s for x in r} | {x for ts in read for _, rs, _ in ts for r in rs for x in r})
    return cuts
def compare(A, B, best=False, start=0, bstart=None):
    """A as given to build, B as read"""
    n, trans, acts, sets = A
    m, out, bacts, _ = B
    step = {}
    eps = {}
    for a, s, b in trans:
        if not sets[s]: eps.setdefault(a, set()).add(b)
        else: step.setdefault(a, []).append((sets[s], b))
    beps = {}
    for i, ts in enumerate(out):
        for y, rs, t in ts:
            if not rs: beps.setdefault(i, set()).add(t)
    def close(q, e):
        q = set(q); todo = list(q)
        while todo:
            for t in e.get(todo.pop(), ()):
                if t not in q: q.add(t); todo.append(t)
        return frozenset(q)
    cuts = cells(sets, out)
    probes = [x for x in cuts] + [(cuts[0] - 1) if cuts else 0]
    has = lambda rs, x: any(a <= x < b for a, b in rs)
    seen = {}
    todo = [((close({start}, eps), close({start if bstart is None else bstart}, beps)), ())]
    while todo:
        (p, q), path = todo.pop(0)
        if (p, q) in seen: continue
        seen[(p, q)] = path
        fa = frozenset(x for s in p for x in acts.get(s, ()))
        fb = frozenset(x for s in q for x in bacts[s])
        text = ' '.join('%d' % x for x in path) or 'the empty text'
        show = lambda f: 'with %s' % ', '.join('%d%s' % (a, ' (eager)' if e else '') for a, e in sorted(f)) if f else 'nothing'
        if best: bad = bool(fa) != bool(fb) or fa and max_action(fa) not in fb or fa and max_action(fb) != max_action(fa)
        else: bad = fa != fb
        if bad: raise Bad('%s was accepted %s, and is now accepted %s' % (text, show(fa), show(fb)) if fa and fb else '%s %s' % (text, 'was accepted %s, and is no longer accepted' % show(fa) if fa else 'was not accepted, and is now accepted %s' % show(fb)))
        if any(e for _, e in fa): continue              # nothing is looked at after an eager action
        for x in probes:
            np = close({b for s in p for rs, b in step.get(s, ()) if has(rs, x)}, eps)
            nq = close({t for s in q for y, rs, t in out[s] if rs and has(rs, x)}, beps)
            if not np and not nq: continue
            todo.append(((np, nq), path + (x,)))
    return len(seen)
def max_action(f): return sorted(f, key=lambda a: (a[1], -a[0]))[-1]       # eager ones first, then the lowest symbol

def deterministic(B):
    n, out, _, flag = B
    for i, ts in enumerate(out):
        ys = [(y, rs) for y, rs, t in ts]
        if len({y for y, _ in ys}) != len(ys): raise Bad('state %d has two transitions for one set of symbols' % i)
        if any(not rs for _, rs in ys): raise Bad('state %d has a transition without a symbol' % i)
    rs = sorted({(y, r) for ts in out for y, rr, _ in ts for r in rr}, key=lambda z: z[1])
    for (y, a), (z, b) in zip(rs, rs[1:]):
        if a[1] > b[0]: raise Bad('two symbol sets overlap')
    if not flag: raise Bad('the automaton is not marked as deterministic')
def disjoint(B):
    rs = sorted({(y, r) for ts in B[1] for y, rr, _ in ts for r in rr}, key=lambda z: z[1])
    for (y, a), (z, b) in zip(rs, rs[1:]):
        if a[1] > b[0]: raise Bad('two symbol sets overlap')

SETS = [(), ((10, 20),), ((15, 30),), ((10, 12), (40, 50)), ((20, 30),), ((30, 31),)]
DSETS = [((10, 20),), ((20, 30),), ((40, 50),)]
def show(A):
    n, trans, acts, sets = A
    return 'an automaton of %d states with %s, accepting %s' % (n, ', '.join('%d-%s->%d' % (a, ' '.join('%d..%d' % r for r in sets[s]) or 'epsilon', b) for a, s, b in sorted(trans)) or 'no transitions',
        ', '.join('%s in %d' % (' and '.join('%d%s' % (y, ' (eager)' if e else '') for y, e in v), q) for q, v in sorted(acts.items()) if v) or 'nothing')

def free_automata(n, seed):
    """automata with overlapping sets, epsilon transitions and several actions"""
    r = random.Random(seed)
    out = []
    for i in range(n // 2):
        # sets whose ranges touch, overlap by one and leave gaps
        fam = [()]
        while len(fam) < 5:
            cuts = sorted(r.sample(range(10, 19), r.choice((2, 2, 4))))
            rs = tuple(zip(cuts[::2], cuts[1::2]))
            if rs not in fam: fam.append(rs)
        k = r.choice((2, 3))
        trans = {(r.randrange(k), s, r.randrange(k)) for s in range(1, 5)} | {(r.randrange(k), r.randrange(5), r.randrange(k)) for _ in range(r.choice((0, 1)))}
        acts = {q: ((q, False),) for q in range(k) if q or r.random() < .5}
        out.append((k, tuple(sorted(trans)), acts, fam))
    for tail in (((3, 1, 3),), ((4, 0, 2), (5, 1, 1)), ((5, 0, 6), (6, 0, 0))):
        # layers of transitions without a symbol
        k = 7
        for first in (((0, 0, 1), (0, 0, 2)), ((0, 1, 1), (0, 1, 2)), ((0, 0, 6), (6, 0, 1), (6, 0, 2))):
            for acts in ({5: ((1, False),)}, {5: ((1, False),), 4: ((2, False),)}, {6: ((1, False),), 3: ((0, False),)}):
                out.append((k, tuple(sorted(set(first + ((1, 0, 3), (2, 0, 4), (3, 0, 5), (4, 0, 5), (4, 0, 6)) + tail))), acts, SETS[:3]))
    for i in range(n // 3):
        # mostly transitions without a symbol
        k = r.choice((4, 5, 6))
        trans = {(r.randrange(k), 0 if r.random() < .6 else 1, r.randrange(k)) for _ in range(r.choice((7, 9)))}
        out.append((k, tuple(sorted(trans)), {q: ((q, False),) for q in range(k) if r.random() < .6}, SETS[:3]))
    for i in range(n):
        k = r.choice((2, 3, 3, 4))
        trans = {(r.randrange(k), r.randrange(len(SETS)), r.randrange(k)) for _ in range(r.choice((2, 3, 4, 5)))}
        acts = {}
        for q in range(k):
            if r.random() < .5: acts[q] = tuple(sorted({(r.randrange(3), r.random() < .2) for _ in range(r.choice((1, 1, 2)))}))
        out.append((k, tuple(sorted(trans)), acts, SETS))
    return out
def det_automata(deep):
    """deterministic automata: all small ones over one set, and others"""
    out = []
    for k in (1, 2, 3):
        for tg in itertools.product(range(-1, k), repeat=k):
            for ac in itertools.product(range(3 if k < 3 else 2), repeat=k):
                acts = {q: ((a, False),) for q, a in enumerate(ac) if a}
                if not acts or any(tg[q] < 0 and q not in acts for q in range(1, k)): pass
                out.append((k, tuple((a, 0, b) for a, b in enumerate(tg) if b >= 0), acts, DSETS))
    # states that differ only by their actions, reached by different symbols
    sets = [(), ((0, False),), ((1, False),), ((0, False), (1, False)), ((0, False), (2, False)), ((1, False), (2, False)), ((1, True),), ((0, False), (1, True))]
    for abc in itertools.combinations(sets, 3):
        for rev in (0, 1):
            t = tuple((0, i, i + 1) for i in range(3))
            for loop in (0, 1): out.append((4, t + (tuple((i, 0, i) for i in (1, 2, 3)) if loop else ()), {i + 1: tuple(reversed(a)) if rev else a for i, a in enumerate(abc) if a}, DSETS))
    # long ones over one set: many rounds until states are told apart
    for k in (5, 6):
        for back in range(-1, k):
            for ac in ((k - 1,), (k - 2,), (0, k - 1), (2,), (1, 3, 4), (1, 2, 3), (2, 3), (1, 4), (2, 4), (1, 2, 4)):
                for order in (list(range(k)), [0] + list(range(k - 1, 0, -1)), [0, 3, 1, 4, 2] + list(range(5, k))):
                    t = tuple((order[i], 0, order[i + 1]) for i in range(k - 1)) + (((order[k - 1], 0, order[back]),) if back >= 0 else ())
                    out.append((k, t, {order[q]: ((1, False),) for q in ac}, DSETS))
    r = random.Random(4)
    for _ in range(900 if deep else 220):
        k = r.choice((3, 4, 4, 5))
        trans = tuple((a, s, r.randrange(k)) for a in range(k) for s in range(3) if r.random() < .6)
        acts = {q: tuple(sorted({(r.randrange(3), False) for _ in range(r.choice((1, 1, 2)))})) for q in range(k) if r.random() < .6}
        out.append((k, trans, acts, DSETS))
    return out

OTHER = [(1, (), {}, SETS), (3, ((0, 1, 1), (1, 2, 2), (2, 3, 0)), {1: ((2, False), (3, True)), 2: ((1, False),)}, SETS), (6, ((0, 0, 5), (5, 4, 4)), {5: ((0, False),)}, SETS)]
PROG = None
def guard(out, P, fn, what, f):
    try: f(); out.append(('ok', what))
    except Bad as x: out.append(('bad', fn['name'], '%s: %s: %s' % (P.where(fn), what, x)))
    except Undecided as x: out.append(('unknown', '%s: %s' % (what, x)))
    except Problem as x: out.append(('bad', x.p[2] or fn['name'], '%s: %s' % (what, x.text(P))))

def result(d, l, sn, types=(), args=()):
    v = d.val(d.call(l, N, sn, types, args))
    if v[0] != 'ptr': raise Undecided('result of ' + sn)
    return v[1]
def states_vec(d, xs):
    l = ('O', 'vec#%d' % d.n); d.n += 1
    d.st.store[l] = ('vec', tuple(C(x) for x in xs)) if xs else ('empty',)
    return ('refto', l)

def job_free(P, A):
    out = []
    base = Aut(P)
    base.I.DOWN = len(A[1]) % 2 == 1
    try: l = base.build(A)
    except (Undecided, Problem) as x: return [('unknown', '%s: %s' % (show(A), x))]
    fu = find(P, N, 'to_ndfa_with_unique_symbols', ())
    fd = find(P, N, 'to_dfa', ('vector',))
    fc = find(P, N, 'to_compact_dfa', ('vector', 'bool'))
    fm = find(P, N, 'to_ndfa_with_merged_symbols', ())
    d = base.fork()
    cur = [None]
    def uniq():
        cur[0] = result(d, l, 'to_ndfa_with_unique_symbols')
        B = d.read(cur[0]); compare(A, B); disjoint(B)
    guard(out, P, fu, 'making the symbol sets of %s unique' % show(A), uniq)
    def dfa():
        cur[0] = result(d, cur[0], 'to_dfa', ('vector',), (states_vec(d, [0]),))
        B = d.read(cur[0]); compare(A, B); deterministic(B)
    if out[-1][0] == 'ok': guard(out, P, fd, 'making %s deterministic' % show(A), dfa)
    def comp():
        cur[0] = result(d, cur[0], 'to_compact_dfa', ('vector', 'bool'), (states_vec(d, [0]), C(0)))
        B = d.read(cur[0]); compare(A, B); deterministic(B)
    if out[-1][0] == 'ok': guard(out, P, fc, 'compacting the deterministic form of %s' % show(A), comp)
    def merg():
        B = d.read(result(d, cur[0], 'to_ndfa_with_merged_symbols')); compare(A, B); deterministic(B)
    if out[-1][0] == 'ok': guard(out, P, fm, 'merging the symbol sets of the compact form of %s' % show(A), merg)
    if A[0] > 1 and out and all(x[0] == 'ok' for x in out):
        # several states to start at: each becomes the state of its index
        starts = [0, A[0] - 1] if len(A[1]) % 2 else [1, 0] if A[0] == 2 else [A[0] - 1, 1, 0]
        e = base.fork()
        def several():
            u = result(e, l, 'to_ndfa_with_unique_symbols')
            cur[0] = result(e, u, 'to_dfa', ('vector',), (states_vec(e, starts),))
            B = e.read(cur[0]); deterministic(B)
            for i, q in enumerate(starts): compare(A, B, start=q, bstart=i)
        guard(out, P, fd, 'making %s deterministic for the initial states %s' % (show(A), starts), several)
        def comps():
            c = result(e, cur[0], 'to_compact_dfa', ('vector', 'bool'), (states_vec(e, range(len(starts))), C(0)))
            B = e.read(c)
            for i, q in enumerate(starts): compare(A, B, start=q, bstart=i)
            B = e.read(result(e, c, 'to_ndfa_with_merged_symbols'))
            for i, q in enumerate(starts): compare(A, B, start=q, bstart=i)
        if out[-1][0] == 'ok': guard(out, P, fc, 'compacting the deterministic form of %s for the initial states %s' % (show(A), starts), comps)
    def left():
        B = d.read(l); compare(A, B)
        d.delete(l)
        if cur[0] is not None: compare(A, d.read(cur[0]))
    d2 = base.fork()
    ok = all(x[0] == 'ok' for x in out)
    cur[0] = None
    if ok:
        d = base.fork()
        def gone():
            u = result(d, l, 'to_ndfa_with_unique_symbols')
            compare(A, d.read(u))
            e = result(d, u, 'to_dfa', ('vector',), (states_vec(d, [0]),))
            d.delete(u)
            compare(A, d.read(e))
            f = result(d, e, 'to_compact_dfa', ('vector', 'bool'), (states_vec(d, [0]), C(0)))
            d.delete(e)
            compare(A, d.read(f))
            cur[0] = result(d, f, 'to_ndfa_with_merged_symbols')
            d.delete(f)
            compare(A, d.read(cur[0]))
        guard(out, P, fd, 'transforming %s and deleting what has been transformed' % show(A), gone)
    guard(out, P, fd, 'transforming %s and looking at the original' % show(A), left)
    d = d2
    def copies():
        c = d.new(N, ('ndfa',), (('refto', l),))
        compare(A, d.read(c))
        o = d.build(OTHER[len(A[1]) % len(OTHER)])
        d.call(o, N, 'operator=', ('ndfa',), (('refto', l),))
        compare(A, d.read(o))
        d.delete(l)
        compare(A, d.read(c)); compare(A, d.read(o))
        d.delete(o)
        compare(A, d.read(c))
    fa = find(P, N, 'operator=', ('ndfa',))
    guard(out, P, fa, 'copying %s' % show(A), copies)
    return out

def job_det(P, A):
    out = []
    base = Aut(P)
    base.I.DOWN = len(A[1]) % 2 == 1
    try: l = base.build(A)
    except (Undecided, Problem) as x: return [('unknown', '%s: %s' % (show(A), x))]
    fc = find(P, N, 'to_compact_dfa', ('vector', 'bool'))
    fm = find(P, N, 'to_ndfa_with_merged_symbols', ())
    for first in (0, 1):
        d = base.fork()
        def comp():
            B = d.read(result(d, l, 'to_compact_dfa', ('vector', 'bool'), (states_vec(d, [0]), C(first)))); compare(A, B, best=bool(first))
            if B[0] > A[0]: raise Bad('the compact form has %d states' % B[0])
        guard(out, P, fc, 'compacting %s%s' % (show(A), ' for the first actions' if first else ''), comp)
    d = base.fork()
    def merg():
        B = d.read(result(d, l, 'to_ndfa_with_merged_symbols')); compare(A, B)
    guard(out, P, fm, 'merging the symbol sets of %s' % show(A), merg)
    return out

JOBS = {'free': job_free, 'det': job_det}
def work(job): return JOBS[job[0]](PROG, job[1])
def run(P, ctx):
    global PROG
    PROG = P
    deep = ctx.tier == 'thorough'
    jobs = [('free', A) for A in free_automata(500 if deep else 120, 1)] + [('det', A) for A in det_automata(deep)]
    for job, res in zip(jobs, pmap(work, jobs, 2)):
        ctx.count('automata')
        for r in res:
            if r[0] == 'ok': ctx.ok(r[1])
            elif r[0] == 'unknown': ctx.unknown(r[1])
            else: ctx.bad(r[1], r[2])
    ctx.need(ctx.discharged, 100, 'transformations')
