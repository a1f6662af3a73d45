"""Helpers to drive the exact interpreter through the operations of a class, one path at a time."""
from absint import State, C, isC, TooComplex
import exact
from exact import ExactInterp
from facts import Broken

class Undecided(Exception): pass
class Split(Exception):
    """an operation on known values has several outcomes"""

class DriveInterp(ExactInterp):
    STRICT = True
    MAXDEPTH = 40
    UNROLL = 400
    HALT = True
    FROM_START = False         # nothing else of the program ran before: variables have their initial values
    ATOMIC = ()                # shared containers are followed like any class, but who releases them is not looked at here
    def on_call(self, st, e, fn, obj, args):
        if fn is not None and fn['sn'] in ('release', 'retain') and '::reference' in (fn.get('cls') or ''): return [(st, C(0))]
        return ExactInterp.on_call(self, st, e, fn, obj, args)

    def table(self, st, n):
        """a constant table of the program, as the address of its first element; the elements are looked up when they are read"""
        self.sizes[('A', n)] = len(self.p.arrays[n]['data'])
        return ('it', ('A', n), C(0))
    def of_table(self, st, l):
        f = None
        if l[0] == 'fld': l, f = l[1], l[2]
        if l[0] != 'cell' or l[1][0] != 'A' or l[1][1] not in self.p.arrays: return None
        g = self.p.arrays[l[1][1]]
        if not 0 <= l[2] < len(g['data']): return None
        x = g['data'][l[2]]
        if f is not None:
            if not isinstance(x, list) or f not in (g.get('fields') or ()) or g['fields'].index(f) >= len(x): return None
            x = x[g['fields'].index(f)]
        if isinstance(x, int): return C(x)
        if isinstance(x, dict) and 's' in x: return self.array(st, 'text:' + x['s'], [C(ord(c)) for c in x['s']] + [C(0)])
        if isinstance(x, dict) and 'g' in x and x['g'] in self.p.arrays: return self.table(st, x['g'])
        return None
    def read(self, st, l):
        if l[0] in ('cell', 'fld') and l not in st.store:
            v = self.of_table(st, l)
            if v is not None: return v
        return ExactInterp.read(self, st, l)
    def ev(self, e, st):
        if e.get('k') == 'global' and e['n'] in self.p.arrays: return [(st, self.table(st, e['n']))]
        return ExactInterp.ev(self, e, st)
    def lv_global(self, e, st):
        """a constant of the program has the value of its initialiser"""
        g = self.p.globals.get(e['n'])
        l = ('G', e['n'])
        if g is None or l in st.base or l in st.store or not g.get('init') or not (g['ti'].get('const') or self.FROM_START): return [(st, l)]
        t = self.strip(g['ti'].get('t', ''))
        if self.is_rec(t):
            r = self.construct(g['init'], st, l)
            if len(r) != 1: raise TooComplex('initialiser of ' + e['n'])
            r[0].ghost[('type', l)] = t
            return [(r[0], l)]
        r = self.ev(g['init'], st)
        if len(r) != 1: raise TooComplex('initialiser of ' + e['n'])
        s, v = r[0]
        if v[0] != 'rec': s.store[l] = v
        return [(s, l)]
    def ord_call(self, e, st, obj, args, mn, op, cls):
        r = ExactInterp.ord_call(self, e, st, obj, args, mn, op, cls)
        if r is None and not ('problem' in st.ghost): raise TooComplex('%s.%s' % (cls.split('<')[0], mn or op))
        return r
    def seq_call(self, e, st, obj, args, mn, op, cls):
        r = ExactInterp.seq_call(self, e, st, obj, args, mn, op, cls)
        if r is None and not ('problem' in st.ghost): raise TooComplex('%s.%s' % (cls.split('<')[0], mn or op))
        return r
    def convert(self, st, a, at, t):
        """argument a of static type at as a value of class t"""
        at, t = self.strip(at), self.strip(t)
        if not self.is_rec(t) or at == t: return a
        ptr = at.endswith('*')
        want = self.strip(at.rstrip('* '))
        for m in self.p.methods_of.get(t, []):
            if m.get('kind') != 'ctor' or len(m['params']) != 1 or m.get('body') is None: continue
            pt = m['params'][0]['ti']
            if bool(pt.get('ptr')) != ptr or self.strip(pt['t'].replace('&', '').replace('*', '')).strip() != want: continue
            if ptr and ('const' in at) != ('const' in pt['t']): continue
            n = self.newloc('conv')
            st.base[n] = 'uninit'
            r = self.inline(m, st, n, (a,), ctor=True)
            if len(r) != 1: raise TooComplex('conversion to ' + t)
            if r[0][0] is not st: st.store, st.base, st.ghost = r[0][0].store, r[0][0].base, r[0][0].ghost
            return ('rec', n)
        return a
    def construct_atomic(self, e, st, t):
        if t.startswith('std::pair<') and len(e.get('args', ())) == 2:
            ta = exact.targs(t)
            out = []
            for s, args in self.eval_args(e, st):
                out.append((s, ('pair',) + tuple(self.part(s, self.convert(s, a, x.get('t', ''), tt), tt) for a, x, tt in zip(args, e['args'], ta))))
            return out
        if t.startswith('std::pair<') and len(e.get('args', ())) == 1 and self.strip(e['args'][0].get('t', '')).startswith('std::pair<'):
            out = []
            for s, args in self.eval_args(e, st):
                v = self.argval(s, args[0])
                out.append((s, v if v[0] in ('pair', 'rec') else ('rec', args[0][1]) if args[0][0] == 'refto' else v))
            return out
        if t.startswith('std::basic_string<') and len(e.get('args', ())) >= 2 and all(self.strip(x.get('t', '')) in ('int', 'unsigned int', 'long', 'unsigned long', 'wchar_t', 'char') for x in e['args'][:2]):
            out = []
            for s, args in self.eval_args(e, st):
                a, b = self.argval(s, args[0]), self.argval(s, args[1])
                if not isC(a) or not isC(b) or not 0 <= a[1] < 1000: raise TooComplex('a string of unknown length')
                out.append((s, ('vec', (b,) * a[1])))
            return out
        return ExactInterp.construct_atomic(self, e, st, t)
    def std_call(self, e, st, obj, args):
        if obj is None and e.get('name') == 'std::make_pair' and len(args) == 2:
            ta = exact.targs(self.strip(e['t']))
            return [(st, ('pair',) + tuple(self.part(st, a, t) for a, t in zip(args, ta)))]
        return ExactInterp.std_call(self, e, st, obj, args)
    def part(self, st, a, t): return ('rec', a[1]) if a[0] == 'refto' and self.is_rec(t) else self.argval(st, a)

def find(P, cls, sn, types, must=True):
    """the method of cls called sn whose parameter types contain the given words"""
    out = []
    for f in P.methods_of.get(cls, []):
        if f['sn'] != sn or len(f['params']) != len(types) or f.get('body') is None: continue
        if all(t in p['ti']['t'] for t, p in zip(types, f['params'])): out.append(f)
    if not out:
        if must: raise Broken('anchor vanished: %s::%s(%s)' % (cls, sn, ', '.join(types)))
        return None
    return out[0]

class Drive:
    """one path; self.st is the current state"""
    def __init__(self, P, I=None):
        self.P, self.I, self.st, self.n = P, I or DriveInterp(P), State(), 0
    def fork(self):
        d = Drive.__new__(type(self))
        d.__dict__.update(self.__dict__)
        d.st = self.st.copy()
        return d
    def run(self, fn, this, args, ctor=None):
        """-> value of the call"""
        try: r = self.I.run(fn, self.st, this, list(args))
        except TooComplex as x: raise Undecided(str(x)[:150])
        except exact.Problem as x: raise Problem(x.args[0])
        r = [x for x in r]
        if len(r) != 1: raise Undecided('%d outcomes of %s' % (len(r), fn['name']))
        self.st = r[0][0]
        p = self.st.ghost.get('problem')
        if p: raise Problem(p)
        return r[0][1]
    def val(self, v): return self.I.argval(self.st, v)
    def num(self, v):
        v = self.val(v)
        if not isC(v): raise Undecided('a result is not known')
        return v[1]
    def new(self, cls, types=(), args=()):
        """-> location of a new object"""
        self.n += 1
        loc = ('O', '%s#%d' % (cls, self.n))
        self.st.base[loc] = 'uninit'
        self.st.ghost[('type', loc)] = cls
        sn = cls.split('<')[0].split('::')[-1]
        f = None
        for m in self.P.methods_of.get(cls, []):
            if m.get('kind') in ('ctor', 'defctor', 'copyctor') and len(m['params']) == len(types) and m.get('body') is not None and all(t in p['ti']['t'] for t, p in zip(types, m['params'])): f = m; break
        if f is None:
            if types: raise Broken('anchor vanished: constructor of %s from (%s)' % (cls, ', '.join(types)))
            self.I.default_init(self.st, loc, cls, True)
            return loc
        self.run(f, loc, args)
        return loc
    def call(self, obj, cls, sn, types=(), args=()):
        return self.run(find(self.P, cls, sn, types), obj, args)
    def loc(self, v):
        """location a result refers to"""
        if v[0] in ('refto', 'rec', 'ptr'): return v[1]
        return self.I.temp(self.st, v)

class Problem(Exception):
    def __init__(self, p):
        Exception.__init__(self, p[1]); self.p = p
    def text(self, P): return '%s (%s:%s, in %s)' % (self.p[1], P.rel(self.p[3]) if self.p[3] else '?', self.p[4], self.p[2])
