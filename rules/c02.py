"""C02 - copies are complete and independent.

Every user-written copy constructor, assignment operator and clone() is evaluated abstractly over a source object whose
attributes are distinct unknown values (containers hold 0, 1 or 2 unknown elements).  Afterwards each attribute of the
copy must equal the source's (or be a copy/clone of what the source refers to), and nothing that the destructor of one of
the two releases may be released by the other one as well."""
from absint import Interp, State, C, isC, TooComplex, NULL, root, under, size_of, tid
from model import walk, lfields
from facts import Broken

CONT = ('std::vector<', 'std::deque<', 'std::list<', 'std::set<', 'std::stack<', 'std::multiset<')
MAPS = ('std::map<', 'std::multimap<')
SETS = ('std::set<', 'std::multiset<')

def targs(t):
    """template arguments of a type spelling"""
    i = t.index('<'); depth, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '<': depth += 1
        if ch == '>':
            if depth == 0: break
            depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''; continue
        cur += ch
    out.append(cur.strip())
    return out

class CopyInterp(Interp):
    MAXDEPTH = 8
    UNROLL = 24
    EXACT = True
    def __init__(self, P):
        Interp.__init__(self, P)
        self.limit = 60000
        self.bounds = set()
        self.N = 1
        self.rootfn = None
        self.rootcls = None
        self.arrays = []
    def distinct_root(self, l): return l[0] in ('L', 'O')
    # ---- known contents
    def mapget(self, st, t, k):
        while True:
            if t[0] == 'mapset':
                if t[2] == k: return t[3]
                t = t[1]; continue
            if t[0] == 'vec':
                for p in t[1]:
                    if p[0] == 'pair' and p[1] == k: return p[2]
                return ('empty',)
            if t[0] == 'empty': return ('empty',)
            return ('mapget', t, k)
    def listof(self, st, t):
        if t[0] == 'ins':
            b = self.listof(st, t[1])
            return None if b is None else b if t[2] in b else b + (t[2],)
        if t[0] == 'mapset':
            b = self.listof(st, t[1])
            if b is None: return None
            return tuple(p for p in b if p[1] != t[2]) + (('pair', t[2], t[3]),)
        if t[0] == 'insall':
            a, b = self.listof(st, t[1]), self.listof(st, t[2])
            return None if a is None or b is None else a + b
        if t[0] == 'insat' and len(t) == 5:
            a = self.listof(st, t[1])
            r = self.itrange(st, t[3], t[4]) if t[3][0] == 'it' and t[4][0] == 'it' else None
            if a is not None and r is not None and t[2][0] == 'it' and isC(t[2][2]): return a[:t[2][2][1]] + r + a[t[2][2][1]:]
            return None
        return Interp.listof(self, st, t)
    def read(self, st, loc):
        if loc[0] == 'fld':
            if loc[2] in ('first', 'second') and loc[1][0] == 'el' and loc not in st.store:
                v = self.elem(st, loc[1])
                if v[0] == 'pair': return v[1] if loc[2] == 'first' else v[2]
            if loc[2] in self.bounds and loc not in st.store and root(loc)[0] in ('O', 'at'): return C(self.N)
        return Interp.read(self, st, loc)
    def elem(self, st, loc):
        t = loc[1][1] if loc[1][0] == 'val' else self.read(st, loc[1])
        if isC(loc[2]):
            l = self.listof(st, t)
            if l is not None and 0 <= loc[2][1] < len(l): return l[loc[2][1]]
        return Interp.elem(self, st, loc)
    # ---- copies of other objects
    def mark(self, st, dst, src, cls=None):
        # pointers into the source stay what they are; the copy reads as the source
        self._havoc_sub(st, dst, 'copy')
        st.base[dst] = ('alias', src)
        st.ghost[('copyof', dst)] = src
    def on_call(self, st, e, fn, obj, args):
        if e['k'] == 'construct':
            if e.get('cc') == 'copy' and obj is not None and args and args[0][0] == 'refto' and fn is not None and (fn is not self.rootfn or obj != self.dst):
                self.mark(st, obj, args[0][1])
                return [(st, C(0))]
            return None
        mn, op = e.get('mn'), e.get('op')
        nm = (e.get('name') or '').split('::')[-1]
        if obj is None and nm == 'malloc' and len(args) == 1: return [(st, self.alloc(st, self.argval(st, args[0]), None))]
        if obj is None and nm == 'realloc' and len(args) == 2:
            old, sz = self.argval(st, args[0]), self.argval(st, args[1])
            r = self.alloc(st, sz, old)
            if old != NULL: st.ghost['deleted'] = st.ghost.get('deleted', ()) + ((old, True, e.get('l')),)
            return [(st, r)]
        if obj is None and nm == 'free' and len(args) == 1:
            v = self.argval(st, args[0])
            if v != NULL: st.ghost['deleted'] = st.ghost.get('deleted', ()) + ((v, True, e.get('l')),)
            return [(st, C(0))]
        if mn == 'clone' and obj is not None and not (fn is not None and fn is self.rootfn):
            l = self.newloc('new')
            st.base[l] = ('alias', obj)
            st.ghost[('copyof', l)] = obj
            st.ghost[('cloned', l)] = True
            return [(st, ('ptr', l))]
        if op == '=' and obj is not None and args and args[0][0] == 'refto' and e.get('cls') in self.p.recs and not self.atomic(e['cls']) and fn is not self.rootfn:
            if obj == self.dst: return None            # the base class part
            if fn is not None:
                self.mark(st, obj, args[0][1])
                return [(st, ('refto', obj))]
        if mn in ('swap',) and obj is None: return None
        return None
    def on_new(self, st, loc, e):
        if not e.get('array'): st.ghost[('made', loc)] = self.strip(e.get('t', '')).rstrip('* ')
    def on_deref(self, st, ptr, e):
        if ptr == NULL: st.ghost['nullused'] = True          # the class never has a null pointer there
    def alloc(self, st, size, old):
        l = self.newloc('new[]')
        st.base[l] = 'uninit' if old is None or old == NULL else ('alias', self.deref(old))
        st.store[('fld', l, '#size')] = size
        return ('ptr', l)
    def on_delete(self, st, v, e):
        if v == NULL: return
        st.ghost['deleted'] = st.ghost.get('deleted', ()) + ((v, bool(e.get('array')), e.get('l')),)

class Env:
    """Builds abstract objects"""
    def __init__(self, I, st, n):
        self.I, self.st, self.n = I, st, n
    def value(self, name, t, n=None):
        n = self.n if n is None else n
        I = self.I
        t = I.strip(t)
        if t.endswith('*'):
            if t[:-1].strip().startswith(CONT + MAPS):
                self.st.store[('O', name)] = self.value(name + '*', t[:-1].strip())
                return ('ptr', ('O', name))
            return ('ptr', ('O', name)) if n else NULL
        if t.startswith(MAPS):
            a = targs(t)
            return ('vec', tuple(('pair', self.value('%s.key%d' % (name, i), a[0], 1), self.value('%s.value%d' % (name, i), a[1], 1)) for i in range(n)))
        if t.startswith(CONT):
            a = targs(t)
            return ('vec', tuple(self.value('%s.item%d' % (name, i), a[0], 1) for i in range(n)))
        if t.startswith('std::pair<'):
            a = targs(t); return ('pair', self.value(name + '.first', a[0], 1), self.value(name + '.second', a[1], 1))
        if I.is_rec(t):
            self.obj(('O', name), t, name, 1)
            return ('rec', ('O', name))
        return ('init', ('O', name))
    def obj(self, loc, cls, name, nested=0):
        self.depth = getattr(self, 'depth', 0) + 1
        try: self.obj1(loc, cls, name, nested)
        finally: self.depth -= 1
    def obj1(self, loc, cls, name, nested):
        if self.depth > 3: return
        const = {} if nested else constant_fields(self.I.p, cls)
        for c, f in self.I.p.all_fields(cls):
            ti = f['ti']
            if ti.get('ref'): self.st.store[('fld', loc, f['n'])] = ('refto', ('O', name + '.' + f['n'])); continue
            if f['n'] in self.I.bounds: self.st.store[('fld', loc, f['n'])] = C(self.n); continue
            if f['n'] in const: self.st.store[('fld', loc, f['n'])] = const[f['n']]; continue
            if self.I.is_rec(ti['t']) and not ti.get('ptr'):
                self.obj(('fld', loc, f['n']), self.I.strip(ti['t']), name + '.' + f['n'], 1); continue
            if nested and ti.get('ptr'): continue
            v = self.value(name + '.' + f['n'], ti['t'])
            if not self.n and v == NULL and any(f['n'] in a for a in self.I.arrays): v = ('ptr', ('O', name + '.' + f['n']))
            if v[0] == 'init': continue            # reads as itself
            self.st.store[('fld', loc, f['n'])] = v

def loop_bounds(P, fns):
    """names of attributes that bound counting loops in these functions"""
    out = set()
    for f in fns:
        for n in walk(f['body']):
            if n['k'] in ('for', 'while', 'do') and n.get('c'):
                for m in walk(n['c']):
                    if m['k'] == 'mem' and m.get('t', '').replace('const ', '').replace('unsigned ', '') in ('int', 'long', 'size_t', 'short', 'unsigned'): out.add(m['f'])
                    if m['k'] == 'call' and m.get('fn') in P.fns and len(P.fns[m['fn']]['params']) == 0 and P.fns[m['fn']].get('body'):
                        for q in walk(P.fns[m['fn']]['body']):
                            if q['k'] == 'return' and q.get('e') and q['e'].get('k') in ('mem', 'cast'):
                                for z in walk(q['e']):
                                    if z['k'] == 'mem' and 'int' in z.get('t', ''): out.add(z['f'])
    return out

def same(I, st, d, s, t, sizes, why):
    """is value d a faithful copy of s?  True / False / None"""
    if d == s: return True
    P = I.p
    t = I.strip(t)
    if d[0] == 'uninit': return False
    ld, ls = I.listof(st, d), I.listof(st, s)
    if ls is not None:
        if ld is None: return None if d[0] in ('s', 'resize', 'mk', 'pure') else False
        if len(ld) != len(ls): return False
        a = targs(t) if '<' in t else ['']
        if t.startswith(MAPS):
            for p in ls:
                q = [x for x in ld if x[0] == 'pair' and x[1] == p[1]]
                if not q: return False
                r = same(I, st, q[0][2], p[2], a[1], sizes, why)
                if r is not True: return r
            return True
        if t.startswith(SETS) and set(ld) == set(ls): return True
        for x, y in zip(ld, ls):
            r = same(I, st, x, y, a[0] if a[0] else 'int', sizes, why)
            if r is not True: return r
        return True
    if d[0] == 'pair' and s[0] == 'pair':
        a = targs(t)
        x, y = same(I, st, d[1], s[1], a[0], sizes, why), same(I, st, d[2], s[2], a[1], sizes, why)
        return False if False in (x, y) else None if None in (x, y) else True
    if d[0] == 'rec' and s[0] == 'rec': return same_obj(I, st, d[1], s[1], t, sizes, why)
    if d[0] == 'mk' and s[0] == 'rec': return None
    if t.endswith('*') and (d[0] == 'ptr' or s[0] == 'ptr' or d == NULL or s == NULL):
        if s == NULL and d[0] == 'ptr' and sizes == 0 and ('fld', d[1], '#size') in st.store: return True     # an empty table
        if d == NULL or s == NULL: return False
        if d[0] != 'ptr': return None
        dl, sl = d[1], I.deref(s)
        return same_obj(I, st, dl, sl, t[:-1].strip(), sizes, why)
    if d[0] in ('init', 'c', 'empty', 'vec', 'dflt') or s[0] == 'c': return False
    if d[0] == 'mk' and s[0] == 'init': return None
    return None

def copied_from(st, l):
    return st.ghost.get(('copyof', l))

def same_obj(I, st, dl, sl, t, sizes, why):
    t = I.strip(t)
    if dl == sl: return True
    c = copied_from(st, dl)
    if c is not None:
        return True if c == sl or copied_from(st, c) == sl else False
    b = st.base.get(dl)
    if isinstance(b, tuple) and b[0] == 'alias' and b[1] == sl: return True
    n = st.store.get(('fld', dl, '#size'))
    if n is not None:                              # an array
        if not isC(n): return None
        res = True
        if n[1] < sizes: return False
        for i in range(sizes):
            fl = lambda l: ('fld', l, ('[]', C(i))) if i or l[0] == 'at' else l
            if I.is_rec(t): r = same_fields(I, st, fl(dl), fl(sl), t, sizes, why)
            else: r = same(I, st, I.read(st, fl(dl)), I.read(st, fl(sl)), t, sizes, why)
            if r is False: return False
            if r is None: res = None
        return res
    if I.is_rec(t): return same_fields(I, st, dl, sl, t, sizes, why)
    return same(I, st, I.read(st, dl), I.read(st, sl), t, sizes, why)

def same_fields(I, st, dl, sl, t, sizes, why):
    if True:
        res = True
        fs = I.p.all_fields(t)
        for cc, f in fs:
            if f.get('mutable'): continue
            fd, fs_ = ('fld', dl, f['n']), ('fld', sl, f['n'])
            if I.is_rec(f['ti']['t']) and not f['ti'].get('ptr'): r = same_obj(I, st, fd, fs_, f['ti']['t'], sizes, why)
            else: r = same(I, st, I.read(st, fd), I.read(st, fs_), f['ti']['t'], sizes, why)
            if r is False: return False
            if r is None: res = None
        return res

_const = {}
def constant_fields(P, cls):
    """attributes that every constructor sets to the same constant and nothing else ever changes: {name: value}"""
    if cls in _const: return _const[cls]
    _const[cls] = {}
    ctors = [m for m in P.methods_of.get(cls, []) if m.get('kind') in ('ctor', 'defctor') and m.get('body') is not None]
    if not ctors: return {}
    vals = {}
    for m in ctors:
        I = Interp(P); I.limit = 20000
        this = ('O', 'this')
        try: res = I.run(m, State(), this)
        except TooComplex: return {}
        for s, _ in res:
            for c, f in P.all_fields(cls):
                if 'rec' in f['ti'] or f['ti'].get('ref'): continue
                vals.setdefault(f['n'], set()).add(I.read(s, ('fld', this, f['n'])))
    out = {}
    written = set()
    for f in P.fns.values():
        if f.get('kind') in ('ctor', 'copyctor', 'defctor', 'movector') or f.get('op') == '=': continue
        for n in walk(f['body']):
            if n['k'] == 'assign': written |= lfields(n['a'])
            elif n['k'] == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--', '&'): written |= lfields(n['e'])
            elif n['k'] == 'call':
                for x, p in zip(n['args'], n.get('ps', [])):
                    if p == 'ref': written |= lfields(x)
    for n, vs in vals.items():
        if len(vs) == 1 and isC(list(vs)[0]) and n not in written: out[n] = list(vs)[0]
    _const[cls] = out
    return out

def dtor_of(P, cls):
    for m in P.methods_of.get(cls, []):
        if m.get('kind') == 'dtor' and m.get('body'): return m
    return None

def all_dtors(P, cls):
    out = []
    for c in [cls] + P.bases_of(cls):
        d = dtor_of(P, c)
        if d: out.append(d)
    return out

def field_names(P, cls): return {f['n'] for c, f in P.all_fields(cls)}

LINKS = 'a pointer to an object of the same class links the object into a list and is not part of its value'

def exempt(P, cls, owner, f, kind=''):
    if f.get('mutable'): return 'cache'
    if f['ti'].get('ptr') and f['ti']['t'].rstrip('* ').replace('const ', '') == cls: return LINKS
    if owner.startswith('lr::lr_state<') and f['n'] == 'm_Identifier': return 'a copy is not in a machine yet and has no identifier'
    if f['n'] in ownership_flags(P, cls): return 'says whether this object releases what it refers to'
    if owner.startswith('lr::parser_stack<') and f['n'] == 'm_Stack' and kind == 'assign': return 'only defined for references into the same stack'
    if owner == 'dfa::ndfa' and f['n'] == 'm_CurrentState': return 'where building continues; a copy starts at the start state'
    if cls == 'contextfree::grammar' and f['n'] == 'm_EpsilonSet': return 'every grammar makes its own set containing just the empty item'
    if cls == 'yy_language::definition_file' and owner == 'yy_language::block': return 'worked out from the positions of the blocks by add()'
    return None

def ownership_flags(P, cls):
    out = set()
    for d in all_dtors(P, cls):
        for n in walk(d['body']):
            if n['k'] == 'if':
                for m in walk(n['c']):
                    if m['k'] == 'mem' and m.get('t', '').replace('const ', '') == 'bool': out.add(m['f'])
    return out

def setup(P, fn, cls, n_src, n_dst, dst, src, bounds):
    I = CopyInterp(P)
    I.rootfn, I.rootcls, I.dst = fn, cls, dst
    I.bounds, I.N = bounds, n_src
    I.arrays = [array_fields(P, cls)] if bounds else []
    st = State()
    Env(I, st, n_src).obj(src, cls, 'src')
    if n_dst is not None: Env(I, st, n_dst).obj(dst, cls, 'dst')
    return I, st

def array_fields(P, cls):
    out = set()
    for d in all_dtors(P, cls):
        for n in walk(d['body']):
            if n['k'] == 'delete' and n.get('array'):
                for m in walk(n['e']):
                    if m['k'] == 'mem': out.add(m['f'])
    return out

def released(I, P, st, cls, loc):
    """pointers released by destroying the object at loc: set of values, or None"""
    s = st.copy()
    s.ghost['deleted'] = ()
    sts = [s]
    for d in all_dtors(P, cls):
        nxt = []
        I.rootfn = None
        for x in sts:
            try: nxt += [y for y, _ in I.run(d, x, loc, [])]
            except TooComplex: return None
        sts = nxt
    out = set()
    for x in sts: out |= {v for v, a, l in x.ghost.get('deleted', ())}
    return out

def judge(P, ctx, I, fn, cls, st, dst, src, n, what, keyp, pre=()):
    okall = True
    if st.ghost.get('nullused'): return True
    for owner, f in P.all_fields(cls):
        ex = exempt(P, cls, owner, f, keyp.split(':')[-1])
        if ex: continue
        if f['ti'].get('ref'): continue
        fd, fs = ('fld', dst, f['n']), ('fld', src, f['n'])
        if I.is_rec(f['ti']['t']) and not f['ti'].get('ptr'): r = same_obj(I, st, fd, fs, f['ti']['t'], n, [])
        else: r = same(I, st, I.read(st, fd), I.read(st, fs), f['ti']['t'], n, [])
        if r is False:
            okall = False
            ctx.bad('%s:%s' % (keyp, f['n']), '%s: %s does not carry over attribute %s of %s (source with %d element(s) per collection)' % (P.where(fn), what, f['n'], owner, n))
        elif r is None:
            okall = None if okall else okall
            ctx.unknown('%s: attribute %s' % (keyp, f['n']))
    return okall

def owned_check(P, ctx, I, fn, cls, st, dst, src, n, keyp):
    a = released(I, P, st, cls, src)
    b = released(I, P, st, cls, dst)
    if a is None or b is None: return None
    both = {x for x in a & b if x[0] in ('ptr', 'init')}
    # arrays and objects made for the copy are its own; shared ones are released twice
    if both:
        x = sorted(both, key=str)[0]
        ctx.bad('%s:shared' % keyp, '%s: after the copy both objects own, and both release, the same object (%s)' % (P.where(fn), name_of(x)))
        return False
    return True

def name_of(v):
    l = v[1] if v[0] == 'ptr' else v[1]
    while isinstance(l, tuple) and l[0] != 'O':
        l = l[1]
    return l[1] if isinstance(l, tuple) and len(l) > 1 and isinstance(l[1], str) else '?'

SKIP = ('util::container<', 'util::syntax_ptr<', 'std::', '__gnu_cxx::', 'boost::')

def classes(P):
    out = []
    for c in sorted(P.recs):
        r = P.recs[c]
        if not P.rel(r['file']).startswith(('TameParse/', 'parsetool/', 'bootstrap/')): continue
        if c.startswith(SKIP): continue
        out.append(c)
    return out

def copy_src(fn):
    return fn['params'][0] if fn['params'] else None

def run(P, ctx):
    ctx.explanation = ('each copy constructor, assignment operator and clone() written in the library, evaluated over abstract source objects with unknown attributes; '
                       'every attribute compared with the source, and the objects released by the two destructors intersected')
    ncopy = nasg = nclone = 0
    for cls in classes(P):
        ms = P.methods_of.get(cls, [])
        short = cls.split('<')[0]
        copies = [m for m in ms if m.get('kind') == 'copyctor' and m.get('body') is not None and reachable(P, m)]
        asgs = [m for m in ms if m.get('op') == '=' and m.get('body') is not None and m['params'] and P_strip(m['params'][0]['ti']['t']) == cls and reachable(P, m)]
        clones = [m for m in ms if m['sn'] == 'clone' and m.get('body') is not None]
        dtors = all_dtors(P, cls)
        for m in copies:
            ncopy += 1
            bounds = loop_bounds(P, [m] + dtors) 
            keyp = '%s:copy' % short
            good = True
            for n in (0, 1, 2):
                dst, src = ('O', 'dst'), ('O', 'src')
                I, st = setup(P, m, cls, n, None, dst, src, bounds)
                try: res = I.run(m, st, dst, [('refto', src)])
                except TooComplex as x: ctx.unknown('%s: %s' % (keyp, x)); good = None; continue
                for s, _ in res:
                    r = judge(P, ctx, I, m, cls, s, dst, src, n, 'the copy', keyp)
                    if r is not True: good = r
                    if owned_check(P, ctx, I, m, cls, s, dst, src, n, keyp) is False: good = False
            if good: ctx.ok('%s: %d attributes' % (keyp, len(P.all_fields(cls))))
        for m in asgs:
            nasg += 1
            bounds = loop_bounds(P, [m] + dtors)
            keyp = '%s:assign' % short
            good = True
            for n, k in ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2)):
                if k != n and bounds & field_names(P, cls) and False: continue
                dst, src = ('O', 'dst'), ('O', 'src')
                I, st = setup(P, m, cls, n, k, dst, src, bounds)
                try: res = I.run(m, st, dst, [('refto', src)])
                except TooComplex as x: ctx.unknown('%s: %s' % (keyp, x)); good = None; continue
                for s, _ in res:
                    r = judge(P, ctx, I, m, cls, s, dst, src, n, 'assignment', keyp)
                    if r is not True: good = r
                    if owned_check(P, ctx, I, m, cls, s, dst, src, n, keyp) is False: good = False
                    gone = {v for v, a, l in s.ghost.get('deleted', ())}
                    left = live_pointers(I, s, dst, cls)
                    for v in gone & left:
                        good = False
                        ctx.bad('%s:dangling' % keyp, '%s: assignment releases %s but the object still refers to it afterwards' % (P.where(m), name_of(v)))
            # self assignment
            for n in (0, 2):
                dst = ('O', 'src')
                I, st = setup(P, m, cls, n, None, dst, dst, bounds)
                try: res = I.run(m, st, dst, [('refto', dst)])
                except TooComplex as x: ctx.unknown('%s: self %s' % (keyp, x)); continue
                for s, _ in res:
                    gone = {v for v, a, l in s.ghost.get('deleted', ())}
                    bad = gone & live_pointers(I, s, dst, cls)
                    if bad:
                        good = False
                        ctx.bad('%s:self' % keyp, '%s: assigning an object to itself releases %s, which it keeps using' % (P.where(m), name_of(sorted(bad, key=str)[0])))
                    I2, st0 = setup(P, m, cls, n, None, ('O', 'other'), ('O', 'src'), bounds)
                    for owner, f in P.all_fields(cls):
                        if exempt(P, cls, owner, f) or I.is_rec(f['ti']['t']): continue
                        a, b = I.read(s, ('fld', dst, f['n'])), I2.read(st0, ('fld', ('O', 'src'), f['n']))
                        if same(I, s, a, b, f['ti']['t'], n, []) is False:
                            good = False
                            ctx.bad('%s:self:%s' % (keyp, f['n']), '%s: assigning an object to itself changes attribute %s' % (P.where(m), f['n']))
            if good: ctx.ok('%s: %d attributes' % (keyp, len(P.all_fields(cls))))
        for m in clones:
            nclone += 1
            bounds = loop_bounds(P, [m] + dtors)
            keyp = '%s:clone' % short
            src = ('O', 'src')
            good = True
            for n in (0, 1):
                I, st = setup(P, m, cls, n, None, ('O', 'dst'), src, bounds)
                try: res = I.run(m, st, src, [])
                except TooComplex as x: ctx.unknown('%s: %s' % (keyp, x)); good = None; continue
                for s, v in res:
                    v = I.argval(s, v)
                    if v[0] != 'ptr' or root(v[1])[0] != 'L':
                        if v == NULL or v == ('ptr', src):
                            ctx.bad(keyp + ':result', '%s: clone returns %s instead of a new object' % (P.where(m), 'null' if v == NULL else 'the object itself')); good = False
                        else: ctx.unknown(keyp); good = None
                        continue
                    made = s.ghost.get(('made', v[1]))
                    if made is not None and I.strip(made) != cls:
                        ctx.bad(keyp + ':class', '%s: the clone of a %s is a %s' % (P.where(m), cls, made)); good = False; continue
                    if copied_from(s, v[1]) == src: continue
                    r = judge(P, ctx, I, m, cls, s, v[1], src, n, 'the clone', keyp)
                    if r is not True: good = r
            if good: ctx.ok(keyp)
    # every concrete class of a cloneable family makes clones of its own kind
    for cls in classes(P):
        fams = [b for b in P.bases_of(cls) if any(m['sn'] == 'clone' for m in P.methods_of.get(b, [])) or any(m.get('sn') == 'clone' for m in P.recs.get(b, {'methods': []})['methods'])]
        own = any(m['sn'] == 'clone' for m in P.methods_of.get(cls, []))
        if not fams or own: continue
        inst = [(f, n) for f in P.fns.values() for n in walk([f['body'], f.get('inits')]) if n['k'] == 'construct' and n.get('t', '').replace('const ', '') == cls]
        inst = [(f, n) for f, n in inst if f.get('cls') != cls and not P.derives(f.get('cls') or '', cls)]
        if inst and not abstract(P, cls):
            f, n = inst[0]
            ctx.bad('%s:slices' % cls.split('<')[0], '%s: objects of %s are created here, but clone() of a base class copies only the base class part' % (P.where(f, n.get('l')), cls))
        else: ctx.ok('%s: not created or abstract' % cls)
    # classes that release what they refer to, but leave copying to the compiler
    for cls in classes(P):
        ms = P.methods_of.get(cls, [])
        ds = [d for d in all_dtors(P, cls)[:1] if d.get('cls') == cls and any(n['k'] == 'delete' for n in walk(d['body']))]
        if not ds: continue
        rec = P.recs[cls]
        kinds = {m.get('kind') for m in rec['methods'] if not m.get('implicit')}
        hasasg = any(m.get('op') == '=' for m in ms) or any(m.get('sn') == 'operator=' and not m.get('implicit') for m in rec['methods'])
        sites = []
        for f in P.fns.values():
            for n in walk([f['body'], f.get('inits')]):
                if n['k'] == 'construct' and n.get('cc') == 'copy' and P_strip(n.get('t', '')) == cls and 'copyctor' not in kinds and n.get('fn') not in P.fns: sites.append((f, n, 'copied'))
                if n['k'] == 'call' and n.get('op') == '=' and P_strip(n.get('cls', '')) == cls and not hasasg and n.get('fn') not in P.fns: sites.append((f, n, 'assigned'))
        ctx.count('owning_classes')
        if sites:
            f, n, w = sites[0]
            ctx.bad('%s:implicit' % cls.split('<')[0], '%s: a %s is %s member by member here, although its destructor releases what it refers to: it will be released twice' % (P.where(f, n.get('l')), cls, w))
        else: ctx.ok('%s: releases what it owns and is never copied member by member' % cls.split('<')[0])
    ctx.count('copy_constructors', ncopy); ctx.count('assignment_operators', nasg); ctx.count('clone_functions', nclone)
    ctx.need(ncopy, 20, 'copy constructors'); ctx.need(nasg, 10, 'assignment operators'); ctx.need(nclone, 12, 'clone functions')

_called = None
def reachable(P, m):
    """private copy operations that nothing calls are there to forbid copying"""
    global _called
    if m.get('access') != 'private': return True
    if _called is None:
        _called = {n.get('fn') for f in P.fns.values() for n in walk([f['body'], f.get('inits')]) if n['k'] in ('construct', 'call')}
    return m['id'] in _called

def abstract(P, cls):
    pure = {}
    for c in reversed([cls] + P.bases_of(cls)):
        pass
    return P.recs[cls].get('abstract', False)

def P_strip(t):
    t = t.strip()
    if t.endswith('&'): t = t[:-1].strip()
    if t.startswith('const '): t = t[6:]
    return t

def live_pointers(I, st, loc, cls):
    out = set()
    def add(v):
        if v[0] == 'ptr': out.add(v)
        l = I.listof(st, v)
        if l:
            for x in l: add(x)
        if v[0] == 'pair': add(v[1]); add(v[2])
        if v[0] == 'init': out.add(v)
    for c, f in I.p.all_fields(cls):
        if I.is_rec(f['ti']['t']) and not f['ti'].get('ptr'): continue
        add(I.read(st, ('fld', loc, f['n'])))
    return out
