"""Path-sensitive abstract interpretation over the type-checked syntax trees.

Abstract values are value numbers (hash-consed terms) with linear normalisation of integers; path facts are
intervals and disequalities over canonical linear forms; containers are algebraic terms (push/store/...);
loops whose control the facts do not decide are widened: everything the body may change becomes unknown.
Nothing is executed and no solver is involved."""
import sys
from model import Program, walk, lfields
from facts import Broken

sys.setrecursionlimit(20000)
INF = float('inf')

_tid = {}
def tid(t):
    i = _tid.get(t)
    if i is None:
        i = _tid[t] = len(_tid)
    return i

def C(n): return ('c', int(n))
TRUE, FALSE, NULL = C(1), C(0), C(0)
def isC(v): return v[0] == 'c'

def lin(v):
    if v[0] == 'c': return v[1], ()
    if v[0] == 'lin': return v[1], v[2]
    return 0, ((v, 1),)

def mklin(k, terms):
    if not terms: return ('c', k)
    if k == 0 and len(terms) == 1 and terms[0][1] == 1: return terms[0][0]
    return ('lin', k, terms)

def ladd(a, b, s=1):
    ka, ta = lin(a); kb, tb = lin(b)
    d = dict(ta)
    for t, c in tb:
        d[t] = d.get(t, 0) + s * c
    return mklin(ka + s * kb, tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda x: tid(x[0]))))

def lscale(a, n):
    k, t = lin(a)
    if n == 0: return C(0)
    return mklin(k * n, tuple((x, c * n) for x, c in t))

def size_of(v):
    k = v[0]
    if k == 'empty': return C(0)
    if k == 'vec': return C(len(v[1]))
    if k == 'str': return C(len(v[1]))
    if k == 'push': return ladd(size_of(v[1]), C(1))
    if k == 'pop': return ladd(size_of(v[1]), C(-1))
    if k == 'store': return size_of(v[1])
    if k == 'resize': return v[1]
    return ('size', v)

class State:
    __slots__ = ('store', 'base', 'fep', 'iv', 'ne', 'ghost', 'trace')
    def __init__(self):
        self.store, self.base, self.fep, self.iv, self.ne, self.ghost, self.trace = Store(), Store(), {}, {}, set(), {}, None
    def copy(self):
        s = State.__new__(State)
        s.store, s.base, s.fep, s.iv, s.ne, s.ghost, s.trace = Store(self.store), Store(self.base), dict(self.fep), dict(self.iv), set(self.ne), dict(self.ghost), self.trace
        return s
    def ev(self, *x):
        self.trace = (x, self.trace)
    def events(self):
        out, t = [], self.trace
        while t: out.append(t[0]); t = t[1]
        return out[::-1]

def root(loc):
    while loc[0] in ('fld', 'el', 'mel', 'base'):
        loc = loc[1]
    return loc

def under(loc, anc):
    while True:
        if loc == anc: return True
        if loc[0] in ('fld', 'el', 'mel'): loc = loc[1]
        else: return False

def top(loc):
    while loc[0] in ('fld', 'el', 'mel'): loc = loc[1]
    return loc

class Store(dict):
    """what is known about locations; the locations within an object or a frame are found through an index, made when it is first needed"""
    __slots__ = ('idx', 'frames')
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.idx = None
    def index(self):
        self.idx, self.frames = {}, {}
        for k in self: self.note(k)
    def note(self, k):
        if k[0] in ('fld', 'el', 'mel'): self.idx.setdefault(top(k), {})[k] = 1
        elif k[0] == 'L': self.frames.setdefault(k[1], {})[k] = 1
    def forget(self, k):
        if k[0] in ('fld', 'el', 'mel'):
            d = self.idx.get(top(k))
            if d is not None:
                d.pop(k, None)
                if not d: del self.idx[top(k)]
        elif k[0] == 'L':
            d = self.frames.get(k[1])
            if d is not None: d.pop(k, None)
    def __setitem__(self, k, v):
        if self.idx is not None and k not in self: self.note(k)
        dict.__setitem__(self, k, v)
    def __delitem__(self, k):
        if self.idx is not None: self.forget(k)
        dict.__delitem__(self, k)
    def pop(self, k, *d):
        if self.idx is not None: self.forget(k)
        return dict.pop(self, k, *d)
    def setdefault(self, k, v=None):
        if k not in self: self[k] = v
        return self[k]
    def update(self, *a, **k): raise NotImplementedError
    def below(self, loc):
        """the locations within loc (itself excepted)"""
        if self.idx is None: self.index()
        t = top(loc)
        d = self.idx.get(t)
        if not d: return []
        if t == loc: return list(d)
        return [k for k in d if k != loc and under(k, loc)]
    def frame(self, n):
        if self.idx is None: self.index()
        return list(self.frames.get(n, ()))

class TooComplex(Exception): pass

class Interp:
    MAXDEPTH = 6
    MAXSTATES = 200
    UNROLL = 12
    STATIC_INIT = False         # function static variables have the value of their initialiser
    ATOMIC = ('util::container<', 'util::syntax_ptr<')

    def __init__(self, prog):
        self.p = prog
        self.n = 0
        self.stack = []
        self.steps = 0
        self.limit = 400000
        self.opaque_names = {}
        self.stats = {'paths': 0, 'inlined': 0, 'opaque': 0, 'loops': 0, 'functions': set()}
        self.cur_line = 0

    # ---------- hooks
    def on_call(self, st, e, fn, obj, args): return None
    def on_deref(self, st, ptr, e): pass
    def on_index(self, st, loc, idx, e): pass
    def on_delete(self, st, v, e): pass
    def on_new(self, st, loc, e): pass
    def on_write(self, st, loc, v, e): pass
    def on_uninit(self, st, loc, e): pass
    def on_end(self, st, fn): pass          # the end of the body is reached without a return
    def on_iter_deref(self, st, it, e): pass
    def on_iter_inc(self, st, it, e): pass
    def should_inline(self, fn, e): return True
    def ghost_merge(self, key, vals):
        return vals[0] if all(v == vals[0] for v in vals) else None

    # ---------- helpers
    def fresh(self, tag='s'):
        self.n += 1
        return ('s', tag, self.n)
    def newloc(self, tag):
        self.n += 1
        return ('L', tag, self.n)
    def strip(self, t):
        t = t.strip()
        if t.endswith('&'): t = t[:-1].strip()
        if t.startswith('const '): t = t[6:]
        if t.startswith('volatile '): t = t[9:]
        if t.endswith(' const'): t = t[:-6]
        return t
    def atomic(self, t):
        t = self.strip(t)
        return t.startswith(self.ATOMIC)
    def is_rec(self, t):
        t = self.strip(t)
        return t in self.p.recs and not self.atomic(t)

    # ---------- store
    def default(self, st, loc):
        l = loc
        while True:
            b = st.base.get(l)
            if b is not None:
                if b == 'uninit': return ('uninit', loc)
                if isinstance(b, tuple) and b[0] == 'alias':
                    # lazily copied aggregate: rebase
                    return self.read(st, self.rebase(loc, l, b[1]))
                tag = b; break
            if l[0] in ('fld', 'el', 'mel'): l = l[1]
            else:
                tag = 0; break
        fe = st.fep.get(loc[2], 0) if loc[0] == 'fld' else 0
        if tag or fe: return ('init', loc, (tag, fe))
        return ('init', loc)
    def rebase(self, loc, anc, to):
        if loc == anc: return to
        return (loc[0], self.rebase(loc[1], anc, to)) + loc[2:]
    def read(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            if v[0] == 'refto': return self.read(st, v[1])
            return v
        if loc[0] == 'el':
            r = self.elem(st, loc)
            if r is not None: return r
        if loc[0] == 'mel':
            t = self.read(st, loc[1])
            return self.mapget(st, t, loc[2])
        if loc[0] == 'fld' and loc[1][0] == 'el' and loc[1][1][0] == 'val' and loc[2] == 'second' and loc[1][2][0] == 'find' and loc[1][2][1] == loc[1][1][1]:
            return self.mapget(st, loc[1][1][1], loc[1][2][2])
        if loc[0] == 'fld' and loc[2] in ('first', 'second'):
            p = st.store.get(loc[1])
            if p is not None and p[0] == 'pair': return p[1] if loc[2] == 'first' else p[2]
        return self.default(st, loc)
    def mapget(self, st, t, k):
        while t[0] == 'mapset':
            r = self.cmp(st, '==', t[2], k)
            if r is True: return t[3]
            if r is False: t = t[1]; continue
            break
        return ('mapget', t, k)
    def elem(self, st, loc):
        """Value of container element if determined; loc = ('el', containerloc|('val',term), idx)."""
        cl, i = loc[1], loc[2]
        t = cl[1] if cl[0] == 'val' else self.read(st, cl)
        while True:
            if t[0] == 'push':
                r = self.cmp(st, '==', size_of(t[1]), i)
                if r is True: return t[2]
                if r is False: t = t[1]; continue
                break
            if t[0] == 'store':
                r = self.cmp(st, '==', t[2], i)
                if r is True: return t[3]
                if r is False: t = t[1]; continue
                break
            if t[0] == 'vec' and isC(i) and 0 <= i[1] < len(t[1]):
                return t[1][i[1]]
            if t[0] == 'str' and isC(i) and 0 <= i[1] < len(t[1]):
                return C(ord(t[1][i[1]]))
            break
        return ('idx', t, i)
    def listof(self, st, t):
        """The elements of a container term when they are all known, else None."""
        k = t[0]
        if k == 'empty': return ()
        if k == 'vec': return t[1]
        if k == 'str': return tuple(C(ord(c)) for c in t[1])
        if k == 'push':
            b = self.listof(st, t[1]); return None if b is None else b + (t[2],)
        if k == 'cat':
            a, b = self.listof(st, t[1]), self.listof(st, t[2])
            return None if a is None or b is None else a + b
        if k == 'store' and isC(t[2]):
            b = self.listof(st, t[1])
            if b is None or not 0 <= t[2][1] < len(b): return None
            return b[:t[2][1]] + (t[3],) + b[t[2][1] + 1:]
        if k == 'resize' and isC(t[1]) and len(t) == 3 and t[1][1] <= 64:
            return ((t[2][0] if t[2] and t[2][0][0] != 'dflt' else C(0)),) * t[1][1]
        if k == 'slice': return t[1]
        return None
    def itrange(self, st, a, b):
        """The elements between two iterators of one container when known."""
        if a[0] != 'it' or b[0] != 'it' or a[1] != b[1] or not isC(a[2]) or not isC(b[2]): return None
        t = a[1][1] if a[1][0] == 'val' else self.read(st, a[1])
        l = self.listof(st, t)
        if l is None or not 0 <= a[2][1] <= b[2][1] <= len(l): return None
        return l[a[2][1]:b[2][1]]
    def elem_loc(self, st, cloc, idx, rec):
        if not rec: return ('el', cloc, idx)
        v = self.elem(st, ('el', cloc, idx))
        if v[0] == 'rec': return v[1]
        if v[0] == 'idx': return ('el', ('val', v[1]), v[2])
        return ('el', ('val', self.read(st, cloc)), idx)
    def write(self, st, loc, v, e=None):
        self.on_write(st, loc, v, e)
        if loc[0] == 'el' and loc[1][0] != 'val':
            t = self.read(st, loc[1])
            self.write_raw(st, loc[1], ('store', t, loc[2], v)); return
        if loc[0] == 'mel':
            t = self.read(st, loc[1])
            self.write(st, loc[1], ('mapset', t, loc[2], v), e); return
        self.write_raw(st, loc, v)
    def write_raw(self, st, loc, v):
        if loc[0] == 'el' and loc[1][0] == 'val':
            st.store[loc] = v; return
        if loc[0] in ('el',):
            t = self.read(st, loc[1]); self.write_raw(st, loc[1], ('store', t, loc[2], v)); return
        if loc[0] == 'mel':
            t = self.read(st, loc[1]); self.write_raw(st, loc[1], ('mapset', t, loc[2], v)); return
        # possible aliases of the same field reached through unknown pointers
        if loc[0] == 'fld' and root(loc)[0] in ('at', 'val', 'O'):
            f = loc[2]; r = root(loc)
            for k in [k for k in st.store if k[0] == 'fld' and k[2] == f and k != loc and self.may_alias(st, k, loc)]:
                del st.store[k]
                st.base[k] = self.fresh('alias')
        st.store[loc] = v
        st.base.pop(loc, None)
        for k in [k for k in st.store.below(loc) if k[0] in ('fld', 'el')]:
            del st.store[k]
    def may_alias(self, st, a, b):
        ra, rb = root(a), root(b)
        if ra == rb: return a[0:1] + a[2:] == b[0:1] + b[2:] and a != b and self._unknown_idx(a, b)
        if ra[0] == 'L' or rb[0] == 'L': return False
        if ra[0] == 'O' and rb[0] == 'O': return False
        if ra[0] == 'at' or rb[0] == 'at':
            pa = ra[1] if ra[0] == 'at' else ('ptr', ra)
            pb = rb[1] if rb[0] == 'at' else ('ptr', rb)
            if a[1] == ra and b[1] == rb:
                return self.ptr_eq(st, pa, pb) is not False
            return False
        return False
    def _unknown_idx(self, a, b): return False
    def havoc_loc(self, st, loc, tag='hv'):
        if loc[0] in ('el', 'mel'):
            if loc[1][0] == 'val':
                self._havoc_sub(st, loc, tag); return
            self.write_raw(st, loc, self.fresh(tag)); return
        v = st.store.get(loc)
        if v is not None and v[0] == 'refto':
            self.havoc_loc(st, v[1], tag); return
        self._havoc_sub(st, loc, tag)
    def _havoc_sub(self, st, loc, tag):
        for k in [k for k in st.store if under(k, loc)]:
            if st.store[k][0] == 'refto' and k == loc: continue
            del st.store[k]
        for k in [k for k in st.base if under(k, loc)]:
            del st.base[k]
        st.base[loc] = self.fresh(tag)
    def havoc_fields(self, st, names):
        for k in [k for k in st.store if k[0] == 'fld' and k[2] in names and root(k)[0] != 'L']:
            del st.store[k]
        for k in [k for k in st.base if k[0] == 'fld' and k[2] in names and root(k)[0] != 'L']:
            del st.base[k]
        self.n += 1
        for n in names: st.fep[n] = self.n

    # ---------- comparisons and facts
    def distinct_root(self, l):
        return l[0] == 'L'
    def ptr_eq(self, st, a, b):
        if a == b: return True
        if a[0] == 'ptr' and b[0] == 'ptr':
            ra, rb = root(a[1]), root(b[1])
            if ra == rb: return None if a[1] != b[1] and (a[1][0] == 'el' or b[1][0] == 'el') else False
            if self.distinct_root(ra) or self.distinct_root(rb): return False
            return self.fact_eq(st, a, b)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'ptr' and y == NULL: return False
            if x[0] == 'ptr' and x[1][0] == 'L' and (y[0] == 'init' or y[0] == 'mapget'): 
                return False       # freshly created object vs. a value that existed before
        return self.fact_eq(st, a, b)
    def canon(self, d):
        k, t = lin(d)
        flip = t[0][1] < 0
        if flip: t = tuple((x, -c) for x, c in t); k = -k
        return k, t, flip
    def ivget(self, st, t):
        iv = st.iv.get(t)
        if iv is None:
            if len(t) == 1 and t[0][1] == 1: return self.term_range(t[0][0])
            return (-INF, INF)
        return iv
    def term_range(self, t):
        if t[0] == 'size': return (0, INF)
        if t[0] == 'rng': return (t[2], t[3])
        return (-INF, INF)
    def fact_eq(self, st, a, b):
        d = ladd(a, b, -1)
        if isC(d): return d[1] == 0
        k, t, _ = self.canon(d)
        lo, hi = self.ivget(st, t)
        if lo == hi == -k: return True
        if not (lo <= -k <= hi): return False
        if (t, -k) in st.ne: return False
        return None
    def cmp(self, st, op, a, b):
        if op == '!=':
            r = self.cmp(st, '==', a, b); return None if r is None else not r
        if op == '>': return self.cmp(st, '<', b, a)
        if op == '>=':
            r = self.cmp(st, '<', a, b); return None if r is None else not r
        if op == '<=':
            r = self.cmp(st, '<', b, a); return None if r is None else not r
        if op == '==':
            if a == b and a[0] != 'uninit': return True
            if a[0] == 'it' and b[0] == 'it':
                if a[1] == b[1]: return self.cmp(st, '==', a[2], b[2])
                return None
            if a[0] == 'ptr' or b[0] == 'ptr': return self.ptr_eq(st, a, b)
            if a[0] == 'str' and b[0] == 'str': return a[1] == b[1]
            return self.fact_eq(st, a, b)
        if op == '<':
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]: return self.cmp(st, '<', a[2], b[2])
            d = ladd(a, b, -1)
            if isC(d): return d[1] < 0
            k, t, f = self.canon(d)
            lo, hi = self.ivget(st, t)
            if not f:
                if hi < -k: return True
                if lo >= -k: return False
            else:
                if lo > -k: return True
                if hi <= -k: return False
            return None
        raise Broken('cmp ' + op)
    def assume(self, st, op, a, b, val):
        """Adds the fact (a op b) == val; op in ==,<.  Returns False when contradictory."""
        if op in ('!=',): return self.assume(st, '==', a, b, not val)
        if op == '>': return self.assume(st, '<', b, a, val)
        if op == '>=': return self.assume(st, '<', a, b, not val)
        if op == '<=': return self.assume(st, '<', b, a, not val)
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]: return self.assume(st, op, a[2], b[2], val)
        if a[0] in ('rec',) or b[0] in ('rec',): return True
        d = ladd(a, b, -1)
        if isC(d):
            return ((d[1] == 0) if op == '==' else (d[1] < 0)) == val
        k, t, f = self.canon(d)
        lo, hi = self.ivget(st, t)
        if op == '==':
            if val: lo, hi = max(lo, -k), min(hi, -k)
            else: st.ne.add((t, -k))
        else:
            if val:
                if not f: hi = min(hi, -k - 1)
                else: lo = max(lo, -k + 1)
            else:
                if not f: lo = max(lo, -k)
                else: hi = min(hi, -k)
        while lo <= hi and (t, lo) in st.ne: lo += 1
        while lo <= hi and (t, hi) in st.ne: hi -= 1
        if lo > hi: return False
        st.iv[t] = (lo, hi)
        return True
    def truth(self, st, v):
        if v[0] == 'c': return v[1] != 0
        if v[0] == 'atom': return self.cmp(st, v[1], v[2], v[3])
        if v[0] == 'not':
            r = self.truth(st, v[1]); return None if r is None else not r
        if v[0] == 'ptr': return True
        if v[0] == 'str': return True
        return self.cmp(st, '!=', v, C(0))
    def assume_truth(self, st, v, val):
        if v[0] == 'c': return (v[1] != 0) == val
        if v[0] == 'atom': return self.assume(st, v[1], v[2], v[3], val)
        if v[0] == 'not': return self.assume_truth(st, v[1], not val)
        if v[0] == 'ptr': return val
        return self.assume(st, '!=', v, C(0), val)
    def branch(self, st, v):
        """[(state, bool)]"""
        r = self.truth(st, v)
        if r is not None: return [(st, r)]
        out = []
        a = st.copy()
        if self.assume_truth(a, v, True): out.append((a, True))
        if self.assume_truth(st, v, False): out.append((st, False))
        return out
    def cond(self, e, st):
        """Evaluate e as a condition -> [(state, bool)] with short circuits."""
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], st):
                if b == (e['op'] == '||'): out.append((s, b))
                else: out += self.cond(e['b'], s)
            return out
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st)]
        if k == 'cast' and e.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp'):
            return self.cond(e['e'], st)
        out = []
        for s, v in self.ev(e, st):
            out += self.branch(s, v)
        return out

    # ---------- expressions
    def tick(self):
        self.steps += 1
        if self.steps > self.limit: raise TooComplex('step limit')
    def ev(self, e, st):
        self.tick()
        if e is None: return [(st, C(0))]
        if 'l' in e: self.cur_line = e['l']
        m = getattr(self, 'ev_' + e['k'], None)
        if m is None: return [(st, self.fresh(e['k']))]
        return m(e, st)
    def ev_int(self, e, st): return [(st, C(e['v']))]
    def ev_bool(self, e, st): return [(st, C(1 if e['v'] else 0))]
    def ev_null(self, e, st): return [(st, NULL)]
    def ev_zero(self, e, st): return [(st, C(0))]
    def ev_float(self, e, st): return [(st, self.fresh('float'))]
    def ev_str(self, e, st): return [(st, ('str', e['v']))]
    def ev_enum(self, e, st): return [(st, C(e['v']))]
    def ev_sizeof(self, e, st): return [(st, C(e['v']) if 'v' in e else self.fresh('sizeof'))]
    def ev_fnref(self, e, st): return [(st, ('fn', e['fn']))]
    def ev_typeid(self, e, st):
        if 'e' in e:
            return [(s, ('typeid', v)) for s, v in self.ev(e['e'], st)]
        return [(st, ('typeid', e['of']))]
    def ev_lambda(self, e, st): return [(st, ('lambda', id(e)))]
    def ev_throw(self, e, st):
        self.throws.append(st)
        return []
    def ev_this(self, e, st): return [(st, ('ptr', self.this))]
    def ev_global(self, e, st):
        if 'v' in e: return [(st, C(e['v']))]
        return self.rd(self.lv_global(e, st), e)
    def lv_global(self, e, st):
        if e['n'] not in self.p.globals: return [(st, ('G', e['n']))]
        return [(st, ('G', e['n']))]
    def rd(self, ls, e):
        out = []
        rec = self.is_rec(e.get('t', ''))
        for s, l in ls:
            if rec: out.append((s, ('rec', l)))
            else:
                v = self.read(s, l)
                if v[0] == 'uninit': self.on_uninit(s, l, e)
                out.append((s, v))
        return out
    def ev_var(self, e, st): return self.rd(self.lv(e, st), e)
    def ev_mem(self, e, st):
        if e['k'] == 'mem' and not e.get('arrow') and not self.is_lv(e['b']):
            # member of an rvalue of a library type
            out = []
            for s, v in self.ev(e['b'], st):
                if v[0] == 'rec': out += self.rd([(s, ('fld', v[1], e['f']))], e)
                else: out.append((s, self.proj(v, e['f'])))
            return out
        return self.rd(self.lv(e, st), e)
    def proj(self, v, f):
        if v[0] == 'pair': return v[1] if f == 'first' else v[2]
        return ('fldof', v, f)
    def ev_index(self, e, st): return self.rd(self.lv(e, st), e)
    def is_lv(self, e):
        k = e['k']
        if k in ('var', 'global', 'index'): return True
        if k == 'mem': return True if e.get('arrow') else self.is_lv(e['b'])
        if k == 'un': return e['op'] in ('*', 'pre++', 'pre--')
        if k == 'assign': return True
        if k == 'call': return e.get('rt') in ('ref', 'cref')
        if k == 'cond': return self.is_lv(e['a']) and self.is_lv(e['b'])
        if k == 'cast': return e.get('ck') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and self.is_lv(e['e'])
        return False

    def lv(self, e, st):
        self.tick()
        if 'l' in e: self.cur_line = e['l']
        k = e['k']
        if k == 'var':
            loc = ('L', self.frame, e['id'])
            v = st.store.get(loc)
            if v is not None and v[0] == 'refto': return [(st, v[1])]
            return [(st, loc)]
        if k == 'global': return self.lv_global(e, st)
        if k == 'mem':
            if e.get('arrow'):
                out = []
                for s, v in self.ev(e['b'], st):
                    self.on_deref(s, v, e)
                    out.append((s, ('fld', self.deref(v), e['f'])))
                return out
            return [(s, ('fld', l, e['f'])) for s, l in self.lv(e['b'], st)]
        if k == 'index':
            out = []
            for s, b in self.ev(e['b'], st):
                for s2, i in self.ev(e['i'], s):
                    self.on_deref(s2, b, e)
                    l = self.deref(b)
                    self.on_index(s2, l, i, e)
                    if isC(i) and i[1] == 0 and b[0] == 'ptr': out.append((s2, l))
                    else: out.append((s2, ('fld', l, ('[]', i))))
            return out
        if k == 'un':
            if e['op'] == '*':
                out = []
                for s, v in self.ev(e['e'], st):
                    self.on_deref(s, v, e)
                    out.append((s, self.deref(v)))
                return out
            if e['op'] in ('pre++', 'pre--'):
                out = []
                for s, v in self.ev(e, st):
                    out += self.lv(e['e'], s)
                return out
        if k == 'assign':
            out = []
            for s, v in self.ev(e, st):
                out += [(s, self._last_assigned)]
            return out
        if k == 'call' and e.get('rt') in ('ref', 'cref'):
            return [(s, v[1] if v[0] == 'refto' else self.temp(s, v)) for s, v in self.call(e, st)]
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st):
                out += self.lv(e['a'] if b else e['b'], s)
            return out
        if k == 'cast' and self.is_lv(e['e']):
            return self.lv(e['e'], st)
        return [(s, v[1] if v[0] == 'rec' else self.temp(s, v)) for s, v in self.ev(e, st)]
    def temp(self, st, v):
        l = self.newloc('tmp')
        st.store[l] = v
        return l
    def deref(self, v):
        if v[0] == 'ptr': return v[1]
        if v[0] == 'item': pass
        return ('at', v)
    def ptr_to(self, loc):
        if loc[0] == 'at': return loc[1]
        return ('ptr', loc)

    def ev_un(self, e, st):
        op = e['op']
        if op == '*': return self.rd(self.lv(e, st), e)
        if op == '&': return [(s, self.ptr_to(l)) for s, l in self.lv(e['e'], st)]
        if op in ('pre++', 'pre--', 'post++', 'post--'):
            out = []
            d = 1 if '+' in op else -1
            for s, l in self.lv(e['e'], st):
                old = self.read(s, l)
                if old[0] == 'uninit': self.on_uninit(s, l, e)
                new = self.add(old, C(d))
                self.write(s, l, new, e)
                out.append((s, old if op.startswith('post') else new))
            return out
        if op == '!':
            out = []
            for s, b in self.cond(e['e'], st): out.append((s, C(0 if b else 1)))
            return self.dedupe_bool(out)
        out = []
        for s, v in self.ev(e['e'], st):
            if op == '-': out.append((s, lscale(v, -1) if self.isnum(v) else ('un', '-', v)))
            elif op == '+': out.append((s, v))
            elif op == '~': out.append((s, C(~v[1]) if isC(v) else ('un', '~', v)))
            else: out.append((s, ('un', op, v)))
        return out
    def isnum(self, v): return v[0] not in ('it', 'ptr', 'str', 'rec')
    def add(self, a, b, s=1):
        if a[0] == 'it': return ('it', a[1], ladd(a[2], b, s))
        if b[0] == 'it' and s == 1: return ('it', b[1], ladd(b[2], a))
        if a[0] == 'ptr' and not isC(b): return ('ptradd', a, b, s)
        return ladd(a, b, s)
    def dedupe_bool(self, out): return out
    def ev_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, C(1 if b else 0)) for s, b in self.cond(e, st)]
        out = []
        for s, a in self.ev(e['a'], st):
            for s2, b in self.ev(e['b'], s):
                out.append((s2, self.binop(s2, op, a, b, e)))
        return out
    def binop(self, st, op, a, b, e=None):
        if op == ',': return b
        if op in ('==', '!=', '<', '>', '<=', '>='):
            r = self.cmp(st, op, a, b)
            if r is not None: return C(1 if r else 0)
            return ('atom', op, a, b)
        if op == '+': return self.add(a, b)
        if op == '-':
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]: return ladd(a[2], b[2], -1)
            return self.add(a, b, -1)
        if isC(a) and isC(b):
            try:
                return C({'*': lambda x, y: x * y, '/': lambda x, y: int(x / y), '%': lambda x, y: x - y * int(x / y), '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y,
                          '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y}[op](a[1], b[1]))
            except (KeyError, ZeroDivisionError): pass
        if op == '*' and isC(a): return lscale(b, a[1])
        if op == '*' and isC(b): return lscale(a, b[1])
        return ('bin', op, a, b)
    def ev_assign(self, e, st):
        out = []
        op = e['op']
        if op == '=':
            for s, v in self.ev(e['b'], st):
                for s2, l in self.lv(e['a'], s):
                    if v[0] == 'rec': self.copy_rec(s2, l, v[1], self.strip(e['t']))
                    else: self.write(s2, l, v, e)
                    self._last_assigned = l
                    out.append((s2, v))
            return out
        for s, v in self.ev(e['b'], st):
            for s2, l in self.lv(e['a'], s):
                old = self.read(s2, l)
                if old[0] == 'uninit': self.on_uninit(s2, l, e)
                nv = self.binop(s2, op[:-1], old, v, e)
                self.write(s2, l, nv, e)
                self._last_assigned = l
                out.append((s2, nv))
        return out
    def ev_cond(self, e, st):
        out = []
        for s, b in self.cond(e['c'], st):
            out += self.ev(e['a'] if b else e['b'], s)
        return out
    def ev_cast(self, e, st):
        if e.get('ck') == 'dynamic':
            out = []
            for s, v in self.ev(e['e'], st):
                if isC(v): out.append((s, v))
                else:
                    d = self.dyncast(s, v, e)
                    out.append((s, d))
            return out
        out = []
        for s, v in self.ev(e['e'], st):
            out.append((s, self.cast(s, v, e)))
        return out
    def dyncast(self, st, v, e): return ('dyn', self.strip(e['t']).rstrip(' *').strip(), v)
    def cast(self, st, v, e):
        ck = e.get('ck')
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            r = self.truth(st, v)
            if r is not None: return C(1 if r else 0)
            return v if v[0] in ('atom', 'not') else ('atom', '!=', v, C(0))
        if ck == 'IntegralCast':
            ti, si = e.get('ti') or {}, e.get('si') or {}
            b, sb = ti.get('bits', 64), si.get('bits', 64)
            if b < 32 and b < sb:       # narrowing that loses information
                if isC(v):
                    x = v[1] & ((1 << b) - 1)
                    if ti.get('signed') and x >> (b - 1): x -= 1 << b
                    return C(x)
                return ('trunc', b, bool(ti.get('signed')), v)
        return v
    def ev_initlist(self, e, st):
        res = [(st, ())]
        for a in e['args']:
            res = [(s2, vs + (v,)) for s, vs in res for s2, v in self.ev(a, s)]
        if self.is_rec(e.get('t', '')):
            out = []
            for s, vs in res:
                l = self.newloc('init'); s.base[l] = 'uninit'
                for (c, f), v in zip(self.p.all_fields(self.strip(e['t'])), vs):
                    if v[0] == 'rec': self.copy_rec(s, ('fld', l, f['n']), v[1], self.strip(f['ti']['t']))
                    else: s.store[('fld', l, f['n'])] = v
                out.append((s, ('rec', l)))
            return out
        if len(e['args']) == 0: return [(st, C(0))]
        if len(e['args']) == 1 and not e.get('t', '').endswith(']'): return [(s, vs[0]) for s, vs in res]
        return [(s, ('vec', vs)) for s, vs in res]
    def ev_other(self, e, st): 
        res = [(st, None)]
        for a in e.get('args', []):
            res = [r for s, _ in res for r in self.ev(a, s)]
        return [(s, self.fresh('other')) for s, _ in res]
    def ev_new(self, e, st):
        out = []
        if e.get('array'):
            for s, n in self.ev(e.get('size'), st):
                l = self.newloc('new[]'); s.base[l] = 'uninit'
                if 'init' in e and e['init'] and e['init'].get('k') == 'initlist': s.base[l] = ('zeroed',)
                s.store[('fld', l, '#size')] = n
                self.on_new(s, l, e)
                out.append((s, ('ptr', l)))
            return out
        init = e.get('init')
        if init is None or init.get('k') != 'construct':
            if init is not None:
                for s, v in self.ev(init, st):
                    l = self.newloc('new')
                    if v[0] == 'rec': s.base[l] = ('alias', v[1])
                    else: s.store[l] = v
                    self.on_new(s, l, e); out.append((s, ('ptr', l)))
            else:
                l = self.newloc('new'); st.base[l] = 'uninit'; self.on_new(st, l, e); out.append((st, ('ptr', l)))
            return out
        l = self.newloc('new')
        res = self.construct(init, st, l)
        for s in res:
            self.on_new(s, l, e)
            out.append((s, ('ptr', l)))
        return out
    def ev_delete(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            self.on_delete(s, v, e)
            out.append((s, C(0)))
        return out
    def ev_construct(self, e, st):
        t = self.strip(e['t'])
        if not self.is_rec(t):
            return self.construct_atomic(e, st, t)
        l = self.newloc('obj')
        return [(s, ('rec', l)) for s in self.construct(e, st, l)]
    def eval_args(self, e, st):
        res = [(st, ())]
        ps = e.get('ps', [])
        for i, a in enumerate(e.get('args', [])):
            pk = ps[i] if i < len(ps) else 'val'
            nxt = []
            for s, vs in res:
                if a is None: nxt.append((s, vs + (C(0),))); continue
                if pk in ('ref', 'cref'):
                    if self.is_lv(a): nxt += [(s2, vs + (('refto', l),)) for s2, l in self.lv(a, s)]
                    else: nxt += [(s2, vs + (('refto', v[1] if v[0] == 'rec' else self.temp(s2, v)),)) for s2, v in self.ev(a, s)]
                else:
                    nxt += [(s2, vs + (v,)) for s2, v in self.ev(a, s)]
            res = nxt
        return res
    def argval(self, st, a):
        return self.read(st, a[1]) if a[0] == 'refto' else a
    def construct_atomic(self, e, st, t):
        out = []
        for s, args in self.eval_args(e, st):
            vs = tuple(self.argval(s, a) for a in args)
            r = self.on_call(s, e, None, None, args)
            if r is not None: out += r; continue
            if e.get('cc') in ('copy', 'move') and len(vs) == 1: out.append((s, vs[0])); continue
            if self.atomic(t):
                if e.get('fn') in self.p.fns or True:
                    args2 = tuple((a[1] if a[0] == 'refto' else a) for a in args)
                    cl = []
                    for a, v in zip(args, vs):
                        cl.append(('rec', a[1]) if a[0] == 'refto' and v[0] in ('init', 'uninit') and a[1][0] != 'tmp' else v)
                    out.append((s, ('mk', t, tuple(cl))))
                continue
            if not vs: out.append((s, ('empty',) if t.startswith(('std::vector', 'std::map', 'std::set', 'std::basic_string', 'std::stack', 'std::queue', 'std::multimap', 'std::list', 'std::deque')) else ('dflt', t))); continue
            if t.startswith('std::basic_string<') and vs[0][0] in ('str',): out.append((s, vs[0])); continue
            if t.startswith('std::pair<') and len(vs) == 2: out.append((s, ('pair', vs[0], vs[1]))); continue
            if t.startswith(('std::_Rb_tree', '__gnu_cxx::__normal_iterator')) and len(vs) == 1: out.append((s, vs[0])); continue
            if len(vs) >= 2 and vs[0][0] == 'it' and vs[1][0] == 'it' and t.startswith(('std::vector', 'std::basic_string', 'std::list', 'std::deque')):
                r = self.itrange(s, vs[0], vs[1])
                if r is not None: out.append((s, ('vec', r))); continue
            if t.startswith('std::vector<') and isC(vs[0]) and vs[0][1] == 0 and len(vs) == 1: out.append((s, ('empty',))); continue
            if t.startswith('std::vector<') and vs[0][0] != 'it' and len(vs) in (1, 2, 3): out.append((s, ('resize', vs[0], vs[1:]))); continue
            out.append((s, ('mk', t, vs)))
        return out
    def construct(self, e, st, loc):
        """Constructs a repo record at loc; returns states."""
        if e['k'] != 'construct':
            out = []
            for s, v in self.ev(e, st):
                if v[0] == 'rec':
                    if v[1] != loc: self.copy_rec(s, loc, v[1], self.strip(e.get('t', '')))
                else: s.store[loc] = v
                out.append(s)
            return out
        out = []
        t = self.strip(e['t'])
        if not self.is_rec(t):
            for s, v in self.construct_atomic(e, st, t):
                if v[0] == 'rec' and v[1] != loc and t.startswith('std::pair<') and self.COPY_PAIRS: self.copy_tree(s, loc, v[1])
                else: s.store[loc] = v
                out.append(s)
            return out
        for s, args in self.eval_args(e, st):
            r = self.on_call(s, e, self.p.fns.get(e.get('fn')), loc, args)
            if r is not None: out += [x for x, _ in r]; continue
            fn = self.p.fns.get(e.get('fn'))
            if fn and self.can_inline(fn, e):
                s.base[loc] = 'uninit'
                out += [x for x, _ in self.inline(fn, s, loc, args, ctor=True)]
            elif e.get('cc') in ('copy', 'move') and args and not fn:
                src = args[0][1]
                s.base[loc] = 'uninit'
                self.copy_rec(s, loc, src, t)
                out.append(s)
            elif not fn and not args:
                s.base[loc] = 'uninit'
                self.default_init(s, loc, t, e.get('zero'))
                out.append(s)
            else:
                s.base[loc] = ('made', t, tuple(self.argval(s, a) if a[0] == 'refto' else a for a in args))
                self.opaque_effects(s, e, fn, None, args)
                out.append(s)
        return out
    def default_init(self, st, loc, t, zero=False):
        done = []
        r = self.p.recs.get(self.strip(t))
        for b in (r or {}).get('bases', []):
            b = self.strip(b)
            ctor = [m for m in self.p.methods_of.get(b, []) if m.get('kind') == 'defctor']
            if ctor and self.can_inline(ctor[0], None):
                o = self.inline(ctor[0], st, loc, (), ctor=True)
                if o and o[0][0] is not st: st.store, st.base = o[0][0].store, o[0][0].base
                done += [f['n'] for _, f in self.p.all_fields(b)]
        for c, f in self.p.all_fields(t):
            if f['n'] in done: continue
            ti = f['ti']
            l = ('fld', loc, f['n'])
            if 'rec' in ti:
                if self.is_rec(ti['t']):
                    ctor = [m for m in self.p.methods_of.get(self.strip(ti['t']), []) if m.get('kind') == 'defctor']
                    if ctor and self.can_inline(ctor[0], None):
                        st.base[l] = 'uninit'
                        r = self.inline(ctor[0], st, l, (), ctor=True)
                        if len(r) == 1 and r[0][0] is st: continue
                        if len(r) >= 1:
                            s2 = r[0][0]
                            st.store, st.base = s2.store, s2.base
                    else: self.default_init(st, l, self.strip(ti['t']), zero)
                else: st.store[l] = ('empty',) if ti['t'].startswith('std::') else ('dflt', ti['t'])
            elif zero: st.store[l] = C(0)
    def copy_rec(self, st, dst, src, cls):
        vals = []
        for c, f in self.p.all_fields(cls):
            vals.append((f, None if self.is_rec(f['ti']['t']) and not f['ti'].get('ref') and not f['ti'].get('ptr') else self.read(st, ('fld', src, f['n']))))
        if not vals:
            st.base[dst] = ('alias', src) if dst != src else st.base.get(dst, 0)
            return
        for f, v in vals:
            d = ('fld', dst, f['n'])
            if v is None: self.copy_rec(st, d, ('fld', src, f['n']), self.strip(f['ti']['t']))
            elif f['ti'].get('ref') and st.store.get(('fld', src, f['n']), ('?',))[0] == 'refto': st.store[d] = st.store[('fld', src, f['n'])]
            else: self.write(st, d, v)

    # ---------- calls
    def ev_call(self, e, st):
        out = []
        rec = self.is_rec(e.get('t', ''))
        for s, v in self.call(e, st):
            if v[0] == 'refto':
                if rec: v = ('rec', v[1])
                else:
                    l = v[1]
                    v = self.read(s, l)
                    if v[0] == 'uninit': self.on_uninit(s, l, e)
            out.append((s, v))
        return out
    def call(self, e, st):
        """-> [(state, value | ('refto', loc))]"""
        out = []
        objs = [(st, None)]
        if 'obj' in e and not e.get('static'):
            o = e['obj']
            if e.get('arrow') :
                objs = []
                for s, v in self.ev(o, st):
                    self.on_deref(s, v, e)
                    objs.append((s, self.deref(v)))
            elif self.is_lv(o):
                objs = self.lv(o, st)
            else:
                objs = [(s, v[1] if v[0] == 'rec' else self.temp(s, v)) for s, v in self.ev(o, st)]
        elif 'calleeE' in e and e['calleeE']:
            objs = [(s, None) for s, _ in self.ev(e['calleeE'], st)] if e['calleeE']['k'] != 'fnref' else objs
        for s, obj in objs:
            for s2, args in self.eval_args(e, s):
                out += self.call1(e, s2, obj, args)
        return out
    def call1(self, e, st, obj, args):
        fn = self.p.fns.get(e.get('fn'))
        cls = e.get('cls', '')
        if obj is not None and e.get('virt'):
            t = self.dyn_type(st, obj)
            if t:
                f2 = self.resolve_virtual(e['fn'], t)
                if f2: fn = f2
        r = self.on_call(st, e, fn, obj, args)
        if r is not None: return r
        if fn is None and (e.get('implicit') or e.get('op') == '=') and self.is_rec(cls) and obj is not None and args and args[0][0] == 'refto':
            self.copy_rec(st, obj, args[0][1], self.strip(cls))
            return [(st, ('refto', obj))]
        if fn is None or cls.startswith(('std::', '__gnu_cxx::', 'boost::')) or self.atomic(cls):
            r = self.std_call(e, st, obj, args)
            if r is not None: return r
        if fn is not None and (not e.get('virt') or not self.p.all_overriders(e['fn']) or (obj is not None and self.dyn_type(st, obj))) and self.can_inline(fn, e):
            return self.inline(fn, st, obj, args)
        return self.opaque(e, st, fn, obj, args)
    def dyn_type(self, st, loc): 
        return st.ghost.get(('type', loc))
    def resolve_virtual(self, fid, t):
        cands = [fid] + sorted(self.p.all_overriders(fid))
        c = t
        order = [t] + self.p.bases_of(t)
        for c in order:
            for i in cands:
                f = self.p.fns.get(i)
                if f and f.get('cls') == c: return f
        return None
    def can_inline(self, fn, e):
        if fn.get('body') is None: return False
        if len(self.stack) >= self.MAXDEPTH: return False
        if any(s['id'] == fn['id'] for s in self.stack): return False
        return self.should_inline(fn, e)
    def inline(self, fn, st, obj, args, ctor=False):
        self.stats['inlined'] += 1
        self.stats['functions'].add(fn['id'])
        of, ot = getattr(self, 'frame', None), getattr(self, 'this', None)
        self.n += 1
        self.frame = self.n
        if obj is not None: self.this = obj
        self.stack.append(fn)
        frame = self.frame
        try:
            for i, p in enumerate(fn['params']):
                l = ('L', frame, p['id'])
                a = args[i] if i < len(args) else self.fresh('arg')
                if p['ti'].get('ref'):
                    st.store[l] = a if a[0] == 'refto' else ('refto', a[1] if a[0] == 'rec' else self.temp(st, a))
                elif a[0] == 'rec':
                    st.base[l] = 'uninit'
                    self.copy_rec(st, l, a[1], self.strip(p['ti']['t']))
                else:
                    st.store[l] = self.argval(st, a)
            sts = [st]
            if fn.get('kind') in ('ctor', 'copyctor', 'defctor', 'movector'):
                sts = self.run_inits(fn, st, obj)
            out = []
            for s in sts:
                for kind, s2, v in self.block(fn['body'], s):
                    if kind in ('next', 'return'):
                        if kind == 'next': self.on_end(s2, fn)
                        out.append((s2, v if v is not None else C(0)))
            # drop the frame's locals
            for s2, v in out:
                dead = [k for k in s2.store.frame(frame) if not (v[0] in ('refto', 'rec') and v[1] == k)]
                if v[0] in ('rec', 'refto') and root(v[1])[0] == 'L' and root(v[1])[1] == frame: dead = []
                for k in dead: del s2.store[k]
            return self.reduce(out)
        finally:
            self.stack.pop()
            self.frame, self.this = of, ot
    def reduce(self, out):
        return out if len(out) <= self.MAXSTATES else self.merge_vals(out)
    def merge_vals(self, out):
        groups = {}
        for s, v in out: groups.setdefault(v, []).append(s)
        return [(self.merge(ss), v) for v, ss in groups.items()]
    def run_inits(self, fn, st, obj):
        sts = [st]
        for i in fn.get('inits', []):
            nxt = []
            for s in sts:
                if 'f' in i:
                    l = ('fld', obj, i['f'])
                    rec = self.p.recs.get(fn['cls'])
                    fi = [f for f in rec['fields'] if f['n'] == i['f']] if rec else []
                    if fi and fi[0]['ti'].get('ref'):
                        for s2, l2 in self.lv(i['e'], s):
                            s2.store[l] = ('refto', l2); nxt.append(s2)
                    elif i['e'] and i['e'].get('k') == 'construct':
                        nxt += self.construct(i['e'], s, l)
                    else:
                        for s2, v in self.ev(i['e'], s):
                            if v[0] == 'rec': self.copy_rec(s2, l, v[1], self.strip(fi[0]['ti']['t']) if fi else '')
                            else: self.write(s2, l, v, i['e'])
                            nxt.append(s2)
                elif 'base' in i or i.get('deleg'):
                    if i['e'] and i['e'].get('k') == 'construct': nxt += self.construct_base(i['e'], s, obj)
                    else: nxt.append(s)
                else: nxt.append(s)
            sts = nxt
        return sts
    def construct_base(self, e, st, obj):
        if not self.is_rec(e['t']): return [st]
        fn = self.p.fns.get(e.get('fn'))
        out = []
        for s, args in self.eval_args(e, st):
            if fn and self.can_inline(fn, e):
                out += [x for x, _ in self.inline(fn, s, obj, args, ctor=True)]
            elif e.get('cc') in ('copy', 'move') and args and not fn:
                self.copy_rec(s, obj, args[0][1], self.strip(e['t'])); out.append(s)
            elif not fn and not args:
                self.default_init(s, obj, self.strip(e['t']), e.get('zero')); out.append(s)
            else:
                for c, f in self.p.all_fields(self.strip(e['t'])):
                    s.store[('fld', obj, f['n'])] = self.fresh('base')
                out.append(s)
        return out
    def opaque_effects(self, st, e, fn, obj, args):
        fids = []
        if e.get('fn'):
            fids = [e['fn']] + (sorted(self.p.all_overriders(e['fn'])) if e.get('virt') else [])
        known = [f for f in fids if f in self.p.fns]
        if known:
            names = set()
            for f in known: names |= self.p.mods(f)
            if names: self.havoc_fields(st, names)
            for a, p in zip(args, e.get('ps', [])):
                if p == 'ref' and a[0] == 'refto': self.havoc_loc(st, a[1])
        else:
            if obj is not None and not e.get('cm') and e['k'] == 'call': self.havoc_loc(st, obj)
            for a, p in zip(args, e.get('ps', [])):
                if p == 'ref' and a[0] == 'refto': self.havoc_loc(st, a[1])
                elif a[0] == 'ptr' and p == 'val': self.havoc_loc(st, a[1])
    STRICT = False              # nothing is decided about a function whose paths call code that is not modelled
    OPAQUE_OK = ()              # calls the analysis knows to have no influence on what it decides
    def opaque(self, e, st, fn, obj, args):
        self.stats['opaque'] += 1
        nm = fn['name'] if fn else '%s::%s' % (e.get('cls') or '', e.get('mn') or e.get('op') or e['k'])
        if not any(x in nm for x in self.OPAQUE_OK):
            st.ghost['opq'] = nm
            self.opaque_names[nm] = self.opaque_names.get(nm, 0) + 1
        pure = (e.get('cm') or obj is None) and not any(p == 'ref' for p in e.get('ps', []))
        if fn is not None and self.p.mods(fn['id']): pure = False
        vs = tuple(('obj', a[1]) if a[0] == 'refto' and self.is_recloc(st, a[1]) else self.argval(st, a) for a in args)
        if pure:
            ver = st.ghost.get('epoch', 0)
            ov = None
            if obj is not None: ov = ('loc', obj) if self.is_recloc(st, obj) else self.read(st, obj)
            v = ('pure', e.get('fn') or e.get('name') or id(e), ov, vs, ver)
        else:
            self.opaque_effects(st, e, fn, obj, args)
            st.ghost['epoch'] = self.n = self.n + 1
            v = self.fresh('ret')
        if e.get('rt') in ('ref', 'cref'):
            return [(st, ('refto', ('at', v)))]
        if self.is_rec(e.get('t', '')):
            return [(st, ('rec', ('at', v)))]
        return [(st, v)]
    def is_recloc(self, st, loc):
        return loc not in st.store

    # ---------- library model
    def std_function(self, e, st, args, vs):
        nm = e.get('name') or ''
        if not nm.startswith(('std::', '__builtin_')) and nm not in ('abs',): return None
        nm = nm.split('::')[-1]
        if nm in ('move', 'forward', 'as_const', '__addressof') and len(args) == 1: return [(st, args[0])]
        if nm in ('min', 'max') and len(args) == 2 and vs[0][0] != 'rec' and vs[1][0] != 'rec':
            a, b = (vs[0], vs[1]) if nm == 'max' else (vs[1], vs[0])      # second one is taken if a < b
            return [(s, args[1] if y else args[0]) for s, y in self.branch(st, self.binop(st, '<', a, b))]
        if nm == 'swap' and len(args) == 2 and args[0][0] == args[1][0] == 'refto' and vs[0][0] != 'rec' and vs[1][0] != 'rec':
            self.write(st, args[0][1], vs[1], e); self.write(st, args[1][1], vs[0], e)
            return [(st, C(0))]
        if nm == 'exchange' and len(args) == 2 and args[0][0] == 'refto' and vs[0][0] != 'rec' and vs[1][0] != 'rec':
            self.write(st, args[0][1], vs[1], e); return [(st, vs[0])]
        if nm == 'abs' and len(args) == 1 and isC(vs[0]): return [(st, C(abs(vs[0][1])))]
        if nm == 'distance' and vs[0][0] == vs[1][0] == 'it': return [(st, self.binop(st, '-', vs[1], vs[0]))]
        if nm in ('next', 'prev') and vs[0][0] == 'it':
            n = vs[1] if len(vs) > 1 else C(1)
            return [(st, self.add(vs[0], n) if nm == 'next' else self.binop(st, '-', vs[0], n))]
        if nm == 'advance' and vs[0][0] == 'it' and args[0][0] == 'refto':
            self.write(st, args[0][1], self.add(vs[0], vs[1]), e); return [(st, C(0))]
        return None
    def std_call(self, e, st, obj, args):
        mn, op, cls = e.get('mn'), e.get('op'), e.get('cls', '')
        vs = [self.argval(st, a) for a in args]
        if self.atomic(cls):
            v = self.read(st, obj) if obj is not None else None
            if op == '=' and args:
                self.write(st, obj, vs[0], e); return [(st, ('refto', obj))]
            if op in ('->',) or mn == 'item' or e.get('conv'):
                it = self.item_of(st, v)
                return [(st, it)]
            if op == '*':
                it = self.item_of(st, v)
                self.on_deref(st, it, e)
                return [(st, ('refto', self.deref(it)))]
            return None
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a = self.read(st, obj) if obj is not None else vs[0]
            b = vs[0] if obj is not None else vs[1]
            la = obj if obj is not None else (args[0][1] if args[0][0] == 'refto' else None)
            return self.std_compare(st, op, a, b, e)
        if obj is None:
            if op == '+' and len(vs) == 2:
                if vs[0][0] == 'it': return [(st, self.add(vs[0], vs[1]))]
                return [(st, ('cat', vs[0], vs[1]))]
            if op == '-' and len(vs) == 2 and vs[0][0] == 'it': return [(st, self.binop(st, '-', vs[0], vs[1]))]
            if mn == 'make_pair': return [(st, ('pair', vs[0], vs[1]))]
            r = self.std_function(e, st, args, vs)
            if r is not None: return r
            if op == '<<': 
                return [(st, args[0] if args[0][0] == 'refto' else ('refto', self.temp(st, args[0])))]
            return None
        v = self.read(st, obj)
        recel = self.is_rec(e.get('t', ''))
        if 'iterator' in cls or (v[0] == 'it'):
            if op == '*':
                self.on_iter_deref(st, v, e)
                if v[0] == 'it': return [(st, ('refto', self.elem_loc(st, v[1], v[2], recel or self.std_struct(e))))]
                return [(st, ('refto', ('at', v)))]
            if op == '->':
                self.on_iter_deref(st, v, e)
                if v[0] == 'it': return [(st, ('ptr', self.elem_loc(st, v[1], v[2], True)))]
                return [(st, v)]
            if op in ('++', '--'):
                self.on_iter_inc(st, v, e)
                d = 1 if op == '++' else -1
                if 'reverse_iterator' in cls: d = -d
                self.write(st, obj, self.add(v, C(d)), e)
                if args: return [(st, v)]
                return [(st, ('refto', obj))]
            if op in ('+', '-'):
                return [(st, self.add(v, vs[0], 1 if op == '+' else -1) if not (op == '-' and vs[0][0] == 'it') else self.binop(st, '-', v, vs[0]))]
            if op in ('+=', '-='):
                self.write(st, obj, self.add(v, vs[0], 1 if op == '+=' else -1), e); return [(st, ('refto', obj))]
            if op == '=': self.write(st, obj, vs[0], e); return [(st, ('refto', obj))]
            if op == '[]': return [(st, ('refto', self.elem_loc(st, v[1], ladd(v[2], vs[0]), recel)))] if v[0] == 'it' else None
            if mn == 'base': return [(st, v)]
        if mn in ('size', 'length'): return [(st, size_of(v))]
        if mn == 'empty':
            r = self.cmp(st, '==', size_of(v), C(0))
            return [(st, C(1 if r else 0) if r is not None else ('atom', '==', size_of(v), C(0)))]
        if mn in ('begin', 'cbegin'): return [(st, ('it', obj, C(0)))]
        if mn in ('end', 'cend'): return [(st, ('it', obj, size_of(v)))]
        if mn == 'rbegin': return [(st, ('it', obj, ladd(size_of(v), C(-1))))]
        if mn == 'rend': return [(st, ('it', obj, C(-1)))]
        if mn in ('push_back', 'push'):
            x = self.elemval(st, args[0], e)
            self.write(st, obj, ('push', v, x), e); return [(st, C(0))]
        if mn in ('pop_back', 'pop'):
            nv = v[1] if v[0] == 'push' and 'queue' not in cls else ('pop', v)
            self.write(st, obj, nv, e); return [(st, C(0))]
        if mn in ('back', 'top'): 
            i = ladd(size_of(v), C(-1))
            self.on_index(st, obj, i, e)
            return [(st, ('refto', self.elem_loc(st, obj, i, recel)))]
        if mn == 'front':
            self.on_index(st, obj, C(0), e)
            return [(st, ('refto', self.elem_loc(st, obj, C(0), recel)))]
        if mn == 'clear': self.write(st, obj, ('empty',), e); return [(st, C(0))]
        if mn == 'reserve': return [(st, C(0))]
        if mn == 'resize': self.write(st, obj, ('resize', vs[0], tuple(vs[1:]) , v), e); return [(st, C(0))]
        if mn == 'find' and 'basic_string' not in cls: return [(st, ('it', obj, ('find', v, vs[0])))]
        if mn in ('lower_bound', 'upper_bound'): return [(st, ('it', obj, (mn, v, vs[0])))]
        if mn == 'count': return [(st, ('count', v, vs[0]))]
        if op == '[]' or mn == 'at':
            if cls.startswith('std::map'):
                if recel: return [(st, ('refto', ('el', ('val', v), ('key', vs[0]))))]
                return [(st, ('refto', ('mel', obj, vs[0])))]
            self.on_index(st, obj, vs[0], e)
            return [(st, ('refto', self.elem_loc(st, obj, vs[0], recel)))]
        if mn == 'insert':
            if len(vs) == 1:
                x = self.elemval(st, args[0], e)
                if x[0] == 'pair' and 'map' in cls: nv = ('mapset', v, x[1], x[2])
                else: nv = ('ins', v, x)
                self.write(st, obj, nv, e)
                return [(st, ('pair', ('it', obj, ('find', nv, x)), self.fresh('inserted')))]
            if len(vs) == 2 and vs[0][0] == 'it' and vs[1][0] == 'it':
                self.write(st, obj, ('insall', v, self.read(st, vs[0][1])), e); return [(st, C(0))]
            self.write(st, obj, ('insat', v) + tuple(vs), e); return [(st, self.fresh('insert'))]
        if mn == 'erase' and not cls.startswith(('std::map', 'std::set', 'std::multimap')) and vs and vs[0][0] == 'it' and vs[0][1] == obj and isC(vs[0][2]):
            l = self.listof(st, v)
            i = vs[0][2][1]
            j = vs[1][2][1] if len(vs) > 1 and vs[1][0] == 'it' and isC(vs[1][2]) else i + 1 if len(vs) == 1 else None
            if l is not None and j is not None and 0 <= i <= j <= len(l):
                self.write(st, obj, ('vec', l[:i] + l[j:]), e); return [(st, ('it', obj, C(i)))]
        if mn == 'erase':
            self.write(st, obj, ('erased', v) + tuple(vs), e); return [(st, self.fresh('erase'))]
        if mn == 'swap':
            if args[0][0] == 'refto':
                self.write(st, obj, vs[0], e); self.write(st, args[0][1], v, e)
                return [(st, C(0))]
        if op == '=' or mn == 'assign':
            if len(vs) == 1:
                self.write(st, obj, vs[0], e); return [(st, ('refto', obj))]
        if op == '+=' or mn == 'append':
            x = vs[0]
            if e.get('ps') and e['ps'][0] == 'val' and len(vs) == 1 and x[0] not in ('str',) and 'basic_string' in cls and 'char *' not in str((e['args'][0] or {}).get('t', '')):
                self.write(st, obj, ('push', v, x), e)
            else: self.write(st, obj, ('cat', v, x), e)
            return [(st, ('refto', obj))]
        if mn == 'c_str' or mn == 'data': return [(st, ('cstr', v))]
        if e.get('cm') and not any(p == 'ref' for p in e.get('ps', [])):
            r = ('pure', mn or op, v, tuple(vs), 0)
            st.ghost['opq'] = '%s::%s' % (cls, mn or op)
            return [(st, ('refto', ('at', r)) if e.get('rt') in ('ref', 'cref') else r)]
        if op == '<<':
            return [(st, ('refto', obj))]
        return None
    def std_struct(self, e):
        t = self.strip(e.get('t', ''))
        return t.startswith('std::pair')
    def elemval(self, st, a, e):
        if a[0] == 'refto':
            l = a[1]
            if l in st.store: return self.read(st, l)
            # record: snapshot
            t = self.strip((e['args'][0] or {}).get('t', ''))
            if self.is_rec(t):
                n = self.newloc('elem'); st.base[n] = 'uninit'
                self.copy_rec(st, n, l, t)
                return ('rec', n)
            return self.read(st, l)
        return a
    def std_compare(self, st, op, a, b, e):
        r = self.cmp(st, op, a, b) if a[0] in ('it', 'c', 'str') or b[0] in ('it', 'c', 'str') or op in ('==', '!=') else None
        if r is not None: return [(st, C(1 if r else 0))]
        return [(st, ('atom', op, a, b))]
    def item_of(self, st, v):
        if v[0] == 'mk' and v[2]:
            x = v[2][0]
            if x[0] == 'ptr' or x == NULL: return x
            if x[0] == 'rec': return ('item', v)
        return ('item', v)

    # ---------- statements
    def block(self, s, st):
        """-> [(kind, state, value)]"""
        self.tick()
        if s is None: return [('next', st, None)]
        if 'l' in s: self.cur_line = s['l']
        return getattr(self, 'st_' + s['k'])(s, st)
    def st_block(self, s, st):
        cur, done = [st], []
        i = 0
        body = s['b']
        for c in body:
            nxt = []
            for x in cur:
                for o in self.block(c, x):
                    if o[0] == 'next': nxt.append(o[1])
                    else: done.append(o)
            cur = self.limit_states(nxt)
            if not cur: break
        return done + [('next', x, None) for x in cur]
    def limit_states(self, sts):
        if len(sts) > 1: sts = self.dedupe(sts)
        if len(sts) > self.MAXSTATES: return [self.merge(sts)]
        return sts
    def key(self, s):
        return (frozenset(s.store.items()), frozenset(s.base.items()), frozenset(s.ghost.items()), s.trace)
    def dedupe(self, sts):
        """Joins states that agree on everything but path facts."""
        g = {}
        for s in sts:
            try: k = self.key(s)
            except TypeError: k = id(s)
            g.setdefault(k, []).append(s)
        return [v[0] if len(v) == 1 else self.merge(v) for v in g.values()]
    def merge(self, sts):
        if len(sts) == 1: return sts[0]
        r = sts[0].copy()
        for k in list(r.store):
            for s in sts[1:]:
                v = s.store.get(k)
                if v is None: v = self.default(s, k)
                if v != r.store[k]:
                    if r.store[k][0] == 'uninit' or v[0] == 'uninit': r.store[k] = ('uninit', k)
                    else: r.store[k] = self.fresh('phi')
                    break
        for s in sts[1:]:
            for k in s.store:
                if k not in r.store:
                    a = self.default(r, k)
                    if a != s.store[k]: r.store[k] = ('uninit', k) if a[0] == 'uninit' else self.fresh('phi')
            for k, b in s.base.items():
                if r.base.get(k) != b and not (k in r.base and r.base[k] == 'uninit'):
                    r.base[k] = b if k not in r.base and k[0] == 'L' else self.fresh('phib')
            for k, b in s.fep.items():
                if r.fep.get(k) != b: r.fep[k] = max(b, r.fep.get(k, 0))
        iv = {}
        for t, (lo, hi) in r.iv.items():
            for s in sts[1:]:
                l2, h2 = self.ivget(s, t)
                lo, hi = min(lo, l2), max(hi, h2)
            if (lo, hi) != (-INF, INF): iv[t] = (lo, hi)
        r.iv = iv
        ne = set()
        for t, k in r.ne:
            if all((t, k) in s.ne or not (self.ivget(s, t)[0] <= k <= self.ivget(s, t)[1]) for s in sts[1:]): ne.add((t, k))
        for s in sts[1:]:
            for t, k in s.ne:
                if (t, k) not in ne and all((t, k) in q.ne or not (self.ivget(q, t)[0] <= k <= self.ivget(q, t)[1]) for q in sts): ne.add((t, k))
        r.ne = ne
        g = {}
        for k in set().union(*[set(s.ghost) for s in sts]):
            m = self.ghost_merge(k, [s.ghost.get(k) for s in sts])
            if m is not None: g[k] = m
        r.ghost = g
        tr = sts[0].trace
        if any(s.trace is not tr for s in sts[1:]):
            evs = [s.events() for s in sts]
            n = 0
            while all(len(x) > n for x in evs) and all(x[n] == evs[0][n] for x in evs): n += 1
            r.trace = None
            for x in evs[0][:n]: r.ev(*x)
        return r
    def decl_var(self, v, st):
        loc = ('L', self.frame, v['id'])
        ti = v['ti']
        if v.get('static'):
            st.store.setdefault(loc, ('init', ('G', v['q'])))
            g = ('G', v['q'])
            if not (self.STATIC_INIT and v.get('init')) or st.ghost.get(('static', v['id'])): return [st]
            st.ghost[('static', v['id'])] = True
            if v['init'].get('k') == 'construct': return self.construct(v['init'], st, g)
            out = []
            for s, x in self.ev(v['init'], st):
                if x[0] == 'rec': self.copy_rec(s, g, x[1], self.strip(ti['t']))
                else: s.store[g] = x
                out.append(s)
            return out
        for k in st.store.below(loc): del st.store[k]
        st.store.pop(loc, None)
        init = v.get('init')
        if ti.get('ref'):
            out = []
            if init is None: return [st]
            for s, l in (self.lv(init, st) if self.is_lv(init) else [(s, x[1] if x[0] == 'rec' else self.temp(s, x)) for s, x in self.ev(init, st)]):
                s.store[loc] = ('refto', l)
                out.append(s)
            return out
        if init is None:
            st.base[loc] = 'uninit'
            return [st]
        if init.get('k') == 'construct':
            return self.construct(init, st, loc)
        out = []
        for s, x in self.ev(init, st):
            if x[0] == 'rec':
                s.base[loc] = 'uninit'
                self.copy_rec(s, loc, x[1], self.strip(ti['t']))
            else:
                s.store[loc] = x
                self.on_write(s, loc, x, init)
            out.append(s)
        return out
    def st_decl(self, s, st):
        sts = [st]
        for v in s['v']:
            sts = [y for x in sts for y in self.decl_var(v, x)]
        return [('next', x, None) for x in sts]
    def st_expr(self, s, st):
        return [('next', x, None) for x, _ in self.ev(s['e'], st)]
    def st_null(self, s, st): return [('next', st, None)]
    def st_otherstmt(self, s, st): return [('next', st, None)]
    def st_break(self, s, st): return [('break', st, None)]
    def st_continue(self, s, st): return [('continue', st, None)]
    def st_return(self, s, st):
        e = s.get('e')
        if e is None: return [('return', st, None)]
        fn = self.stack[-1]
        if fn['rt'].get('ref'):
            return [('return', x, ('refto', l)) for x, l in self.lv(e, st)]
        return [('return', x, v) for x, v in self.ev(e, st)]
    def st_if(self, s, st):
        sts = [st]
        if s.get('init'): sts = [o[1] for x in sts for o in self.block(s['init'], x) if o[0] == 'next']
        if s.get('cv'): sts = [y for x in sts for y in self.decl_var(s['cv'], x)]
        out = []
        for x in sts:
            for y, b in self.cond(s['c'], x):
                out += self.block(s['a'] if b else s.get('b'), y)
        return self.join(out)
    def join(self, out):
        nx = [o[1] for o in out if o[0] == 'next']
        rest = [o for o in out if o[0] != 'next']
        return rest + [('next', x, None) for x in self.limit_states(nx)]
    def st_label(self, s, st): return self.block(s['b'], st)
    def st_goto(self, s, st): raise TooComplex('goto')
    def st_try(self, s, st):
        pre = st.copy()
        saved = getattr(self, 'throws', [])
        self.throws = []
        out = self.block(s['b'], st)
        thrown = self.throws
        self.throws = saved
        hs = []
        for h in s['h']:
            hst = pre.copy()
            after = [o[1] for o in out] + thrown
            if after: hst = self.merge([hst] + [a.copy() for a in after])
            hs += self.block(h, hst)
        return out + hs
    def st_switch(self, s, st):
        body = s['b']
        items = body['b'] if body['k'] == 'block' else [body]
        # flatten labels
        flat = []
        for it in items:
            labels = []
            while it is not None and it['k'] in ('case', 'default'):
                labels.append(it); it = it['b']
            flat.append((labels, it))
        out = []
        for x, v in self.ev(s['c'], st):
            cur = [x]
            targets = []
            for i, (labels, _) in enumerate(flat):
                for lb in labels:
                    if lb['k'] != 'case': continue
                    nxt = []
                    for y in cur:
                        for z, b in (self.branch_range(y, v, lb) if 'v2' in lb else self.branch(y, self.binop(y, '==', v, C(lb['v'])))):
                            if b: targets.append((i, z))
                            else: nxt.append(z)
                    cur = nxt
            dflt = [i for i, (labels, _) in enumerate(flat) if any(l['k'] == 'default' for l in labels)]
            for y in cur:
                if dflt: targets.append((dflt[0], y))
                elif not self.covers(s['c'], [lb for labels, _ in flat for lb in labels]): out.append(('next', y, None))
            for i, y in targets:
                live = [y]
                for labels, stm in flat[i:]:
                    nl = []
                    for z in live:
                        for o in self.block(stm, z):
                            if o[0] == 'next': nl.append(o[1])
                            elif o[0] == 'break': out.append(('next', o[1], None))
                            else: out.append(o)
                    live = self.limit_states(nl)
                    if not live: break
                out += [('next', z, None) for z in live]
        return self.join(out)
    def covers(self, c, labels): return False      # the labels of a switch name every value there is
    def branch_range(self, st, v, lb):
        out = []
        for s, b in self.branch(st, self.binop(st, '>=', v, C(lb['v']))):
            if not b: out.append((s, False))
            else: out += self.branch(s, self.binop(s, '<=', v, C(lb['v2'])))
        return out
    # loops
    def st_while(self, s, st): return self.loop(s, st, s['c'], None, s['b'], False)
    def st_do(self, s, st): return self.loop(s, st, s['c'], None, s['b'], True)
    def st_for(self, s, st):
        out = []
        for o in self.block(s.get('i'), st) if s.get('i') else [('next', st, None)]:
            out += self.loop(s, o[1], s.get('c'), s.get('n'), s['b'], False)
        return out
    def st_rangefor(self, s, st):
        out = []
        for x, l in (self.lv(s['r'], st) if self.is_lv(s['r']) else [(y, v[1] if v[0] == 'rec' else self.temp(y, v)) for y, v in self.ev(s['r'], st)]):
            itl = self.newloc('rangeit')
            x.store[itl] = ('it', l, C(0))
            out += self.loop(s, x, None, None, s['b'], False, rng=(itl, l, s['v']))
        return out
    def loop_cond(self, c, st, rng):
        if rng:
            itl, cl, var = rng
            it = self.read(st, itl)
            sz = ('it', cl, size_of(self.read(st, cl)))
            return [(s, not b) for s, b in self.branch(st, self.binop(st, '==', it, sz))]
        if c is None: return [(st, True)]
        return self.cond(c, st)
    def loop_body(self, s, st, inc, body, rng):
        """one iteration -> (next states, outs)"""
        outs, nx = [], []
        sts = [st]
        if rng:
            itl, cl, var = rng
            it = self.read(st, itl)
            lloc = ('L', self.frame, var['id'])
            rec = self.is_rec(var['ti']['t'])
            el = self.elem_loc(st, cl, it[2], rec)
            if var['ti'].get('ref'): st.store[lloc] = ('refto', el)
            elif rec:
                st.base[lloc] = 'uninit'; self.copy_rec(st, lloc, el, self.strip(var['ti']['t']))
            else: st.store[lloc] = self.read(st, el)
            st.store[itl] = self.add(it, C(1))
        for x in sts:
            for o in self.block(body, x):
                if o[0] in ('next', 'continue'):
                    if inc is not None: nx += [y for y, _ in self.ev(inc, o[1])]
                    else: nx.append(o[1])
                elif o[0] == 'break': outs.append(('next', o[1], None))
                else: outs.append(o)
        return self.limit_states(nx), outs
    EXACT = False
    def exact_loop(self, s, st, c, inc, body, post, rng):
        """Finite environments: every iteration is followed separately."""
        outs, cur = [], [st]
        for it in range(self.UNROLL):
            live = []
            for x in cur:
                if post and it == 0: live.append(x); continue
                for y, b in self.loop_cond(c, x, rng):
                    if b: live.append(y)
                    else: outs.append(('next', y, None))
            cur = []
            for x in live:
                nx, o = self.loop_body(s, x, inc, body, rng)
                outs += o
                cur += nx
            if not cur: return self.join(outs)
        raise TooComplex('loop bound')
    def loop(self, s, st, c, inc, body, post, rng=None):
        self.stats['loops'] += 1
        if self.EXACT: return self.exact_loop(s, st, c, inc, body, post, rng)
        outs = []
        cur = [st]
        # exact unrolling while the facts decide the condition
        for it in range(self.UNROLL):
            if len(cur) != 1: break
            x = cur[0]
            if post and it == 0:
                nx, o = self.loop_body(s, x, inc, body, rng); outs += o
                cur = nx
                if not cur: return self.join(outs)
                continue
            probe = self.loop_cond(c, x.copy(), rng)
            if len(probe) != 1 or c is None and not rng: break
            x, b = probe[0]
            if not b:
                return self.join(outs + [('next', x, None)])
            if not self.decided(c, x, rng): break
            nx, o = self.loop_body(s, x, inc, body, rng); outs += o
            cur = nx
            if not cur: return self.join(outs)
        # widening
        res = list(outs)
        for x in cur:
            res += self.widen_loop(s, x, c, inc, body, rng)
        return self.join(res)
    def decided(self, c, st, rng):
        return True
    def widen_loop(self, s, st, c, inc, body, rng):
        changed = set()
        probe_mode = getattr(self, 'probing', 0)
        for rnd in range(8):
            h = st.copy()
            mono = self.apply_widen(h, st, changed, s)
            self.probing = probe_mode + 1
            quiet = self.quiet_begin()
            try:
                new = set()
                for y, b in self.loop_cond(c, h.copy(), rng):
                    if not b: continue
                    ref = y.copy()
                    nx, o = self.loop_body(s, y, inc, body, rng)
                    for z in nx:
                        new |= self.diff(h, z)
            finally:
                self.probing = probe_mode
                self.quiet_end(quiet)
            new -= changed
            if not new: break
            changed |= new
        else:
            pass
        self.note_loop(s, st, changed)
        h = st.copy()
        self.apply_widen(h, st, changed, s)
        res = []
        exits = []
        for y, b in self.loop_cond(c, h, rng):
            if not b: exits.append(y); continue
            nx, o = self.loop_body(s, y, inc, body, rng)
            res += o
            self.loop_back(s, y, nx)
        if exits: res += [('next', y, None) for y in exits]
        return res
    def loop_back(self, s, head, states): pass
    def note_loop(self, s, st, changed): pass
    def quiet_begin(self): return None
    def quiet_end(self, q): pass
    def apply_widen(self, h, st0, changed, s):
        for k in changed:
            if k[0] == '$f':
                h.fep[k[1]] = self.n = self.n + 1
            elif k[0] == '$b':
                for q in [q for q in h.store if under(q, k[1])]: del h.store[q]
                h.base[k[1]] = self.fresh('wb')
            elif k[0] == '$g':
                self.widen_ghost(h, k[1])
            else:
                old = st0.store.get(k) or self.default(st0, k)
                if old[0] == 'it': h.store[k] = ('it', old[1], self.fresh('w'))
                elif old[0] == 'uninit': h.store[k] = ('uninit', k)
                else: h.store[k] = self.fresh('w')
                # monotone counters keep their lower bound
                if k in self._mono(s, st0):
                    nv = h.store[k][2] if old[0] == 'it' else h.store[k]
                    ov = old[2] if old[0] == 'it' else old
                    self.assume(h, '<', nv, ov, False)
                for q in h.store.below(k): del h.store[q]
    def _mono(self, s, st0):
        return self.__dict__.setdefault('_monos', {}).get(id(s), ())
    def widen_ghost(self, h, key): h.ghost.pop(key, None)
    def diff(self, h, z):
        out = set()
        mon = self.__dict__.setdefault('_monos', {})
        for k, v in z.store.items():
            o = h.store.get(k)
            if o is None:
                if k[0] == 'L' and k not in h.base and root(k) == k: 
                    continue        # body-local
                if root(k)[0] == 'L' and root(k) not in h.base and root(k) not in h.store and not any(root(q) == root(k) for q in h.store): continue
                o = self.default(h, k)
            if o != v: out.add(k)
        for k, v in h.store.items():
            if k not in z.store: out.add(k)
        for k, b in z.base.items():
            if h.base.get(k) != b and not (root(k)[0] == 'L' and root(k) not in h.store and root(k) not in h.base):
                out.add(('$b', k))
        for k, b in z.fep.items():
            if h.fep.get(k) != b: out.add(('$f', k))
        for k, b in z.ghost.items():
            if h.ghost.get(k) != b: out.add(('$g', k))
        for k in h.ghost:
            if k not in z.ghost: out.add(('$g', k))
        return out

    # ---------- entry
    def run(self, fn, st=None, this=('O', 'this'), args=None, ctor=None):
        """Analyses fn from an arbitrary entry state; -> [(state, return value)]"""
        st = st or State()
        self.steps = 0
        self.throws = []
        self.this = this
        self.frame = 0
        if args is None:
            args = []
            for p in fn['params']:
                args.append(self.entry_arg(st, p))
        if fn.get('kind') in ('ctor', 'copyctor', 'defctor', 'movector'):
            st.base[this] = 'uninit'
        r = self.inline(fn, st, this if fn.get('cls') and not fn.get('static') else None, tuple(args))
        self.stats['paths'] += len(r)
        if self.STRICT:
            for x, _ in r:
                if 'opq' in x.ghost: raise TooComplex('calls %s, which is not modelled' % x.ghost['opq'])
        return r
    def entry_arg(self, st, p):
        ti = p['ti']
        loc = ('O', 'arg:' + p['n'])
        if ti.get('ref'): return ('refto', loc)
        if ti.get('ptr'): return ('init', loc)
        if 'rec' in ti and self.is_rec(ti['t']): return ('rec', loc)
        return ('init', loc)
