"""C03 - no attribute or variable is used before it has a value."""
from absint import Interp, State, C, isC, TooComplex, NULL
from facts import Broken
import c02

SCALAR = ('bool', 'char', 'signed char', 'unsigned char', 'wchar_t', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'char16_t', 'char32_t')

class CtorInterp(Interp):
    MAXDEPTH = 8
    MAXSTATES = 60
    def __init__(self, P):
        Interp.__init__(self, P)
        self.limit = 120000
        self.partial = False
    def limit_states(self, sts):
        if len(sts) > 1: sts = self.dedupe(sts)
        if len(sts) <= self.KEEP: return sts
        # paths on which the same things have a value are joined
        g = {}
        for s in sts: g.setdefault(self.signature(s), []).append(s)
        out = []
        for v in g.values(): out += v if len(v) <= self.PER else [self.merge(v)]
        if len(out) > self.MAXSTATES: self.partial = True; out = out[:self.MAXSTATES]
        return out
    KEEP, PER = 6, 2
    def signature(self, st):
        r = [k for k, b in st.base.items() if b == 'uninit' and k not in st.store and k[0] == 'L' and isinstance(k[1], int)]
        for k, v in st.store.items():
            if v[0] == 'uninit' and k[0] == 'L' and isinstance(k[1], int): r.append(('u', k))
            elif k[0] == 'fld' and k[1] == self.me: r.append(k)
        return frozenset(r)
    me = ('O', 'this')
    def default(self, st, loc):
        v = Interp.default(self, st, loc)
        if v[0] == 'uninit' and loc[0] == 'fld' and st.fep.get(loc[2]): return ('init', loc, ('havoc', st.fep[loc[2]]))
        return v
    def covers(self, c, labels):
        while c and c.get('k') == 'cast': c = c['e']
        t = self.strip((c or {}).get('t', ''))
        en = self.p.enums.get(t)
        vals = set(x['v'] for x in en['e']) if en else None
        return bool(vals) and vals <= set(lb.get('v') for lb in labels)
    def widen_loop(self, s, st, c, inc, body, rng):
        """follows loops for up to two iterations (what is assigned by then is assigned by more iterations too)"""
        outs, cur = [], [st]
        for it in range(3):
            live = []
            for x in cur:
                for y, b in self.loop_cond(c, x, rng):
                    if b: live.append(y)
                    else: outs.append(('next', y, None))
            cur = []
            if it == 2: break
            for x in live:
                nx, o = self.loop_body(s, x, inc, body, rng)
                outs += o; cur += nx
        return outs

def plain(P, ti):
    """types without a value unless one is given"""
    if ti.get('ref'): return False
    if ti.get('ptr') or ti.get('enum'): return True
    return 'rec' not in ti and not P_rec(P, ti.get('t', ''))
def P_rec(P, t): return t in P.recs


class LocalInterp(CtorInterp):
    KEEP, PER = 4, 2
    MAXDEPTH = 1
    def __init__(self, P):
        CtorInterp.__init__(self, P)
        self.found = {}
        self.ends = False
    def can_inline(self, fn, e): return False
    def on_end(self, st, fn):
        if len(self.stack) == 1: self.ends = True
    def on_uninit(self, st, loc, e):
        l = loc
        if e['k'] == 'index' or '[' in e.get('t', ''): return        # elements of arrays are not followed
        while l[0] in ('fld', 'el', 'mel', 'base'): l = l[1]
        self.found[(l, loc[2] if loc is not l and isinstance(loc[2], str) else None)] = e

_P = None
def one_function(fid):
    P, f = _P, _P.fns[fid]
    for again in (False, True):
        I = LocalInterp(P)
        if again: I.KEEP = I.PER = 1
        why = None
        try: I.run(f, State(), ('O', 'this'), [('refto', ('L', 'source', 1))] if f.get('kind') == 'copyctor' else None); break
        except TooComplex as x: why = str(x)
    bad = []
    if I.ends and f['rt'].get('t') not in ('void', None) and f.get('kind') not in ('ctor', 'defctor', 'copyctor', 'movector', 'dtor') and f['sn'] != 'main' and c02.reachable(P, f):
        bad.append(('noresult:%s' % f['name'], '%s: there is a path on which no value is returned' % P.where(f)))
    for (l, fld), e in I.found.items():
        bad.append(('local:%s:%s' % (f['name'].split('<')[0] + '::' + f['sn'], e.get('n') or fld), '%s: %s is read before it has a value' % (P.where(f, e.get('l')), e.get('n') or fld)))
    return '%s: %s' % (P.where(f), why or 'only some of its paths') if why or I.partial else None, bad, I.stats['paths']

def locals_(P, ctx):
    global _P
    _P = P
    from parallel import pmap
    n = paths = 0
    for unk, bad, k in pmap(one_function, [i for i in sorted(P.fns) if P.fns[i].get('body') is not None], 32):
        n += 1; paths += k
        if unk: ctx.unknown(unk)
        elif not bad: ctx.ok()
        for key, msg in bad: ctx.bad(key, msg)
    ctx.count('functions', n)
    ctx.count('paths', paths)
    ctx.need(n, 500, 'functions')

class ShallowInterp(CtorInterp):
    """only follows constructors of bases and members and functions of the same class"""
    def __init__(self, P, cls):
        CtorInterp.__init__(self, P)
        self.own = {cls} | set(P.bases_of(cls)) | {self.strip(f['ti'].get('t', '')) for _, f in P.all_fields(cls)}
    def can_inline(self, fn, e):
        return CtorInterp.can_inline(self, fn, e) and fn.get('cls') in self.own and len(self.stack) < 4

class UseInterp(CtorInterp):
    def __init__(self, P, watch):
        CtorInterp.__init__(self, P)
        self.watch, self.hit = watch, {}
        self.limit = 20000
    def on_uninit(self, st, loc, e):
        if loc in self.watch: self.hit.setdefault(self.watch[loc], (self.stack[-1], e.get('l')))

def built(P, m, cls):
    """states after the constructor m -> [(state)] or None"""
    last = LocalInterp(P); last.KEEP = last.PER = 1
    for I in (CtorInterp(P), ShallowInterp(P, cls), last):
        try: return I, [s for s, _ in I.run(m, State(), ('O', 'this'), [('refto', ('L', 'source', 1))] if m['kind'] == 'copyctor' else None)]
        except TooComplex: pass
    return None, None

def one_class(cls):
    P = _P
    out = []
    fs = [(c, f) for c, f in P.all_fields(cls) if not f.get('static') and plain(P, f['ti'])]
    for m in P.methods_of.get(cls, []):
        if m.get('kind') not in ('ctor', 'defctor', 'copyctor') or m.get('body') is None: continue
        if not c02.reachable(P, m): continue
        I, sts = built(P, m, cls)
        if sts is None: out.append((P.where(m), True, 0, [])); continue
        done, bad = set(), []
        for st in sts:
            left = {('fld', ('O', 'this'), f['n']): (c, f['n']) for c, f in fs if I.read(st, ('fld', ('O', 'this'), f['n']))[0] == 'uninit'}
            if not left or frozenset(left) in done: continue
            done.add(frozenset(left))
            # does an operation on the new object read what has no value?
            for u in P.methods_of.get(cls, []) + [x for b in P.bases_of(cls) for x in P.methods_of.get(b, [])]:
                if u.get('kind') in ('ctor', 'defctor', 'copyctor', 'movector') or u.get('body') is None or u.get('op') == '=': continue
                J = UseInterp(P, left)
                J.n = I.n + 1000
                try: J.run(u, st.copy(), ('O', 'this'), None)
                except TooComplex: pass
                for (c, f), (w, l) in J.hit.items():
                    bad.append(('%s:%s' % (cls.split('<')[0], f), '%s: leaves %s of %s without a value, which %s then uses' % (P.where(m), f, c, P.where(w, l))))
        out.append((P.where(m), I.partial, len(done), bad))
    return out

def attributes(P, ctx):
    global _P
    _P = P
    from parallel import pmap
    n = unset = 0
    for res in pmap(one_class, sorted(P.recs), 4):
        for where, partial, k, bad in res:
            n += 1; unset += k
            for key, msg in bad: ctx.bad(key, msg)
            if partial: ctx.unknown('constructor %s: only some of its paths' % where)
            elif not bad: ctx.ok(where)
    ctx.count('constructors', n)
    ctx.need(n, 100, 'constructors')
    ctx.count('constructors_leaving_something_unset', unset)

def run(P, ctx):
    ctx.explanation = ('abstract interpretation of every constructor and every function: a location has no value until something is assigned to it on the path that is followed (loops up to two iterations); '
        'a read of such a location, an operation that reads an attribute its constructor left without a value, and a path that ends without the value a function returns are reported')
    ctx.assumptions = ['a function whose body is not available, or that is not followed, gives its reference arguments a value', 'elements of arrays and vectors are not followed']
    attributes(P, ctx)
    locals_(P, ctx)
