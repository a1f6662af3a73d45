"""C05 - source positions.

The position tracker is evaluated as a transition system: its hidden state (everything but the position itself) is
enumerated to a fixpoint together with the specification's state ("was the last symbol a carriage return"), for every
class of symbol (the seven line-ending symbols, and the intervals between them).  For every transition the change of
offset, line and column must be the specified one, with the position itself left symbolic.  The sequence overload and
the users of the tracker are checked for feeding every symbol exactly once and in order."""
from absint import Interp, State, C, isC, ladd, INF, TooComplex, size_of, root
from model import walk
from facts import Broken

NEWLINES = {0x0a: 'LF', 0x0b: 'VT', 0x0c: 'FF', 0x0d: 'CR', 0x85: 'NEL', 0x2028: 'LS', 0x2029: 'PS'}
BETWEEN = [(-INF, 9), (0x0e, 0x84), (0x86, 0x2027), (0x202a, INF)]
CLS = 'dfa::position_tracker'

class PosInterp(Interp):
    STRICT = True
    MAXDEPTH = 10

def classes():
    out = [('U+%04X %s' % (c, n), ('c', c), None, c) for c, n in NEWLINES.items()]
    for lo, hi in BETWEEN: out.append(('symbols %s..%s' % (lo, hi), ('init', ('O', 'symbol')), (lo, hi), None))
    return out

def method(P, cls, sn, nparams, pred=lambda f: True):
    r = [f for f in P.methods_of.get(cls, []) if f['sn'] == sn and len(f['params']) == nparams and pred(f)]
    if not r: raise Broken('anchor vanished: %s::%s/%d' % (cls, sn, nparams))
    return r[0]

def observe(I, P, st, tloc):
    """(offset, line, column) of the tracker's current position, through its accessors"""
    cp = method(P, CLS, 'current_position', 0)
    s = st.copy()
    r = I.run(cp, s, tloc, [])
    if len(r) != 1: return None
    s, v = r[0]
    if v[0] == 'refto': v = ('rec', v[1])
    if v[0] != 'rec': return None
    out = []
    for a in ('offset', 'line', 'column'):
        f = method(P, 'dfa::position', a, 0)
        rr = I.run(f, s.copy(), v[1], [])
        if len(rr) != 1: return None
        out.append(I.argval(rr[0][0], rr[0][1]))
    return tuple(out)

def start(I, P):
    """a tracker at an arbitrary position"""
    st = State()
    ploc, tloc = ('O', 'start'), ('O', 'tracker')
    pc = [f for f in P.methods_of.get('dfa::position', []) if f.get('kind') == 'ctor' and len(f['params']) == 3]
    if not pc: raise Broken('anchor vanished: dfa::position constructor from offset, line and column')
    r = I.run(pc[0], st, ploc, [('init', ('O', 'off')), ('init', ('O', 'line')), ('init', ('O', 'col'))])
    st = r[0][0]
    tc = [f for f in P.methods_of.get(CLS, []) if f.get('kind') in ('ctor',) and len(f['params']) == 1 and 'position' in f['params'][0]['ti']['t'] and 'tracker' not in f['params'][0]['ti']['t']]
    if not tc: raise Broken('anchor vanished: position_tracker constructor from a position')
    r = I.run(tc[0], st, tloc, [('refto', ploc)])
    if len(r) != 1: raise Broken('position_tracker constructor has several outcomes')
    return r[0][0], tloc

def hidden(P, st, tloc):
    out = []
    for c, f in P.all_fields(CLS):
        if 'position' in f['ti']['t'].split('::')[-1]: continue
        out.append((f['n'], st.store.get(('fld', tloc, f['n']))))
    return tuple(out)

def run_tracker(P, ctx):
    I = PosInterp(P)
    up = method(P, CLS, 'update_position', 1, lambda f: f['params'][0]['ti'].get('sc'))
    st0, tloc = start(I, P)
    o0 = observe(I, P, st0, tloc)
    want0 = (('init', ('O', 'off')), ('init', ('O', 'line')), ('init', ('O', 'col')))
    if o0 != want0: ctx.bad('tracker-start', '%s: a tracker created at a position does not report that position' % P.where(up))
    else: ctx.ok('a tracker starts at the position it is given')
    # default tracker starts at zero
    dc = [f for f in P.methods_of.get(CLS, []) if f.get('kind') == 'defctor']
    if dc:
        s = State(); r = I.run(dc[0], s, tloc, [])
        if len(r) != 1 or observe(I, P, r[0][0], tloc) != (C(0), C(0), C(0)): ctx.bad('tracker-zero', '%s: a new tracker is not at offset 0, line 0, column 0' % P.where(dc[0]))
        else: ctx.ok('a new tracker is at offset 0, line 0, column 0')
        seeds = [(hidden(P, r[0][0], tloc), False)] if r else []
    else: seeds = []
    seeds.append((hidden(P, st0, tloc), False))
    seen, todo = set(), list(dict.fromkeys(seeds))
    while todo:
        h, cr = todo.pop()
        if (h, cr) in seen: continue
        seen.add((h, cr))
        if len(seen) > 40: ctx.unknown('too many hidden states in the position tracker'); break
        for name, sym, iv, code in classes():
            st = st0.copy()
            for f, v in h:
                if v is None: continue
                st.store[('fld', tloc, f)] = v
            if iv:
                t = ((sym, 1),)
                st.iv[t] = iv
            try: res = I.run(up, st, tloc, [sym])
            except TooComplex: ctx.unknown(name); continue
            for s, _ in res:
                got = observe(I, P, s, tloc)
                off, line, col = want0
                if code is None: want = (ladd(off, C(1)), line, ladd(col, C(1)))
                elif code == 0x0a and cr: want = (ladd(off, C(1)), line, col)
                else: want = (ladd(off, C(1)), ladd(line, C(1)), C(0))
                what = '%s%s' % (name, ' after CR' if cr else '')
                if got is None: ctx.unknown(what); continue
                good = True
                for n, g, w in zip(('offset', 'line', 'column'), got, want):
                    if g != w:
                        good = False
                        def rel(x, b):
                            d = ladd(x, b, -1)
                            return '%+d' % d[1] if isC(d) else 'set to %s' % (x[1] if isC(x) else 'something else')
                        base = dict(offset=off, line=line, column=col)[n]
                        ctx.bad('update:%s:%s' % (what.replace(' ', '_'), n), '%s: for %s the %s changes by %s instead of %s' % (P.where(up), what, n, rel(g, base), rel(w, base)))
                if good: ctx.ok('%s moves the position as specified' % what)
                ctx.count('transitions')
                h2 = hidden(P, s, tloc)
                todo.append((h2, code == 0x0d))
    ctx.count('tracker_states', len(seen))

class SeqInterp(Interp):
    STRICT = True
    EXACT = True
    """records which symbols are fed to the tracker during one generic loop iteration"""
    MAXDEPTH = 5
    def __init__(self, P, single):
        Interp.__init__(self, P)
        self.single = single
        self.fed = []
        self.backs = []
        self.probing = 0
    def on_call(self, st, e, fn, obj, args):
        if fn is not None and fn['id'] == self.single['id']:
            st.ghost[('fed', st.ghost.get('nfed', 0))] = (self.argval(st, args[0]), self.cur_line, obj)
            st.ghost['nfed'] = st.ghost.get('nfed', 0) + 1
            return [(st, C(0))]
        return None
    def loop_back(self, s, head, states):
        self.backs.append((s, head, states))

def run_sequence(P, ctx):
    """update over a range: one generic iteration feeds exactly the current symbol and advances by one"""
    single = method(P, CLS, 'update_position', 1, lambda f: f['params'][0]['ti'].get('sc'))
    seqs = [f for f in P.fns.values() if f['name'] == CLS + '::update_position' and len(f['params']) == 2]
    if not seqs: raise Broken('anchor vanished: update_position over a range')
    for f in seqs:
        res = []
        for n in range(0, 4):
            # a sequence of n unknown symbols
            I = SeqInterp(P, single)
            st = State()
            cont = ('O', 'symbols')
            st.store[cont] = ('vec', tuple(('init', ('O', 'sym%d' % i)) for i in range(n)))
            def it(k, p): return ('refto', I.temp(st, ('it', cont, C(k)))) if p['ti'].get('ref') else ('it', cont, C(k))
            try: outs = I.run(f, st, ('O', 'tracker'), [it(0, f['params'][0]), it(n, f['params'][1])])
            except TooComplex: outs = []
            if not outs: res.append(None); continue
            good = True
            for s, _ in outs:
                fed = [s.ghost.get(('fed', i)) for i in range(s.ghost.get('nfed', 0))]
                vals = [x[0] for x in fed if x]
                if vals != [('init', ('O', 'sym%d' % i)) for i in range(n)]:
                    good = False
                    ctx.bad('sequence', '%s: a sequence of %d symbols is passed to the tracker as %s' % (P.where(f), n, ['symbol %s' % v[1][1][3:] if v[0] == 'init' and v[1][0] == 'O' else '?' for v in vals]))
            res.append(good)
        if any(r is None for r in res): ctx.unknown(P.where(f))
        elif all(res): ctx.ok('%s feeds every symbol once, in order' % P.where(f))
        ctx.count('sequence_updates')

def run(P, ctx):
    ctx.explanation = 'Fixpoint over (hidden tracker state, specification state) for every class of symbol, position symbolic; sequence updates checked for feeding each symbol once in order; creation of lexemes checked for using the position before the symbols it covers.'
    ctx.assumptions = ['line-ending symbols: LF, CR, CR LF as one, VT, FF, NEL, LS, PS']
    run_tracker(P, ctx)
    run_sequence(P, ctx)
    ctx.need(ctx.counts.get('transitions', 0), 22, 'tracker transitions')
