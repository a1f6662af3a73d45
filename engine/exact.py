"""Interpreter extension: containers with known contents, and the lifetime of heap objects and vector elements.

Sequences are ('vec', (element, ...)), ordered containers ('oset', (element, ...)); an element that is a structure is ('rec', location);
the elements of a map are pairs.  Iterators of ordered containers are ('nit', container, element), ('nit', container, None) at the end."""
from absint import C, isC, NULL, TooComplex, size_of, under, root
from arrays import ArrayInterp

SEQ = ('std::vector<', 'std::deque<', 'std::stack<', 'std::queue<', 'std::list<')
SET = ('std::set<', 'std::multiset<')
MAP = ('std::map<', 'std::multimap<')

def targs(t):
    """template arguments of a type"""
    i = t.find('<')
    out, d, cur = [], 0, ''
    for ch in t[i + 1:]:
        if ch == '<': d += 1
        if ch == '>':
            if d == 0: break
            d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    out.append(cur.strip())
    return out

class Problem(Exception): pass

class ExactInterp(ArrayInterp):
    COPY_PAIRS = True
    MAXDEPTH = 24
    MAXSTATES = 5000
    UNROLL = 80
    STATIC_INIT = True
    INVALIDATE = True          # growing a vector ends the life of the references to its elements
    RECURSION = 6
    ctypes = {}
    def can_inline(self, fn, e):
        if fn.get('body') is None or len(self.stack) >= self.MAXDEPTH: return False
        return sum(1 for s in self.stack if s['id'] == fn['id']) < self.RECURSION and self.should_inline(fn, e)
    def limit_states(self, sts):
        if len(sts) > 1: sts = self.dedupe(sts)
        if len(sts) > self.MAXSTATES: raise TooComplex('%d states' % len(sts))
        return sts
    # ---- problems
    HALT = False                # a problem on a path taken unconditionally ends the evaluation
    def problem(self, st, kind, what, e):
        if self.STRICT and 'opq' in st.ghost: raise TooComplex('after calling ' + str(st.ghost['opq']))
        st.ghost.setdefault('problem', (kind, what, self.stack[-1]['name'] if self.stack else '?', self.stack[-1].get('file') if self.stack else '?', (e or {}).get('l') or self.cur_line))
        if self.HALT and not st.iv and not st.ne: raise Problem(st.ghost['problem'])
    def alive(self, st, loc, e=None):
        l = loc
        while True:
            if ('dead', l) in st.ghost: self.problem(st, 'dead', st.ghost[('dead', l)], e); return False
            if l[0] in ('fld', 'el', 'mel', 'base'): l = l[1]
            else: return True
    def kill(self, st, loc, why): st.ghost[('dead', loc)] = why
    def rd(self, ls, e):
        for s, l in ls: self.alive(s, l, e)
        return ArrayInterp.rd(self, ls, e)
    def write(self, st, loc, v, e=None):
        self.alive(st, loc, e)
        if loc[0] == 'el' and loc[1][0] != 'val' and isC(loc[2]):
            items = self.contents(st, loc[1])
            if items is not None and 0 <= loc[2][1] < len(items):
                self.on_write(st, loc, v, e)
                self.write_raw(st, loc[1], ('vec', items[:loc[2][1]] + (v,) + items[loc[2][1] + 1:])); return
        return ArrayInterp.write(self, st, loc, v, e)
    def on_new(self, st, loc, e):
        st.ghost[('type', loc)] = self.strip(e.get('t', '')).rstrip('* ').strip()
        st.ghost['made'] = st.ghost.get('made', ()) + (loc,)
    def ptr_eq(self, st, a, b):
        if a[0] == 'ptr' and b[0] == 'ptr' and a != b and a[1][0] in ('L', 'O') and b[1][0] in ('L', 'O'): return False
        return ArrayInterp.ptr_eq(self, st, a, b)
    def deref_at(self, st, v, e):
        if v == NULL: self.problem(st, 'null', 'the null pointer is followed', e)
        return ArrayInterp.deref_at(self, st, v, e)
    def on_deref(self, st, v, e):
        if v == NULL: self.problem(st, 'null', 'the null pointer is followed', e)
    # ---- values
    def clone(self, st, v):
        """a copy of a container value has elements of its own"""
        if v[0] in ('vec', 'oset') and any(x[0] == 'rec' for x in v[1]):
            return (v[0], tuple(self.clone_elem(st, x) for x in v[1]))
        return v
    def clone_elem(self, st, x):
        if x[0] != 'rec': return self.clone(st, x)
        n = self.newloc('elem')
        self.copy_tree(st, n, x[1])
        return ('rec', n)
    def copy_tree(self, st, dst, src):
        """everything known below src is copied below dst"""
        st.base[dst] = st.base.get(src, ('alias', src))
        for k in st.store.below(src):
            st.store[self.rebase(k, src, dst)] = self.clone(st, st.store[k])
        for k in st.base.below(src): st.base[self.rebase(k, src, dst)] = st.base[k]
    def copy_rec(self, st, dst, src, cls):
        self.alive(st, src)
        ArrayInterp.copy_rec(self, st, dst, src, cls)
        for k in st.store.below(dst):
            v = st.store[k]
            if v[0] in ('vec', 'oset'): st.store[k] = self.clone(st, v)
    def norm(self, st, v):
        """container value in normal form, or None"""
        if v[0] in ('vec', 'oset'): return v
        if v[0] == 'empty': return ('vec', ())
        l = self.listof(st, v)
        return None if l is None else ('vec', tuple(l))
    def contents(self, st, loc):
        v = self.read(st, loc)
        n = self.norm(st, v)
        return None if n is None else n[1]
    def default_value(self, st, t):
        """-> value of a new T() (elements of a container)"""
        t = self.strip(t)
        if t.startswith(('std::vector', 'std::map', 'std::set', 'std::basic_string', 'std::stack', 'std::queue', 'std::multimap', 'std::list', 'std::deque')): return ('empty',)
        if self.is_rec(t):
            n = self.newloc('elem')
            m = [x for x in self.p.methods_of.get(t, []) if x.get('kind') in ('ctor', 'defctor') and not x['params'] and x.get('body') is not None]
            st.base[n] = 'uninit'
            if m:
                r = self.inline(m[0], st, n, (), ctor=True)
                if len(r) != 1: raise TooComplex('constructor of ' + t)
                if r[0][0] is not st: st.store, st.base, st.ghost = r[0][0].store, r[0][0].base, r[0][0].ghost
            else: self.default_init(st, n, t, True)
            return ('rec', n)
        if self.atomic(t): return ('mk', t, ())
        return C(0)
    def element(self, st, a, t):
        """argument a as an element of type t of a container (a copy)"""
        if a[0] == 'refto':
            if self.is_rec(t): return self.clone_elem(st, ('rec', a[1]))
            if t.startswith('std::pair<'):
                v = self.read(st, a[1])
                if v[0] == 'pair': return self.pairrec(st, v, t)
                return self.clone_elem(st, ('rec', a[1]))
            return self.clone(st, self.read(st, a[1]))
        if a[0] == 'pair': return self.pairrec(st, a, t)
        if a[0] == 'rec': return self.clone_elem(st, a)
        return self.clone(st, a)
    def pairrec(self, st, v, t):
        n = self.newloc('pair')
        for f, x in (('first', v[1]), ('second', v[2])):
            if x[0] == 'rec': self.copy_tree(st, ('fld', n, f), x[1])
            else: st.store[('fld', n, f)] = self.clone(st, x)
        return ('rec', n)
    def set_contents(self, st, loc, kind, items, e=None, moved=None):
        """moved: elements before this index keep their place in memory"""
        if moved is not None and self.INVALIDATE:
            new = []
            for i, x in enumerate(items):
                if i < moved or x[0] != 'rec' or x[1][1] == 'fresh': new.append(x); continue
                n = self.newloc('elem')
                self.copy_tree(st, n, x[1])
                self.kill(st, x[1], 'an element of a vector is used after the vector may have moved it')
                new.append(('rec', n))
            items = tuple(new)
        self.write(st, loc, (kind, tuple(items)), e)
    # ---- order of keys
    def key(self, st, x):
        return x
    def lessv(self, st, a, b, t, comp=None):
        """a < b for two keys (values or ('rec', loc)); True/False/None"""
        if comp is not None:
            la, lb = (x[1] if x[0] == 'rec' else self.temp(st, x) for x in (a, b))
            for m in self.p.methods_of.get(comp, []):
                if m.get('op') == '()' and len(m['params']) == 2:
                    pr = [('refto', l) if p['ti'].get('ref') else self.read(st, l) for l, p in zip((la, lb), m['params'])]
                    r = self.inline(m, st, self.newloc('cmp'), tuple(pr))
                    return self.truth(r[0][0], self.argval(r[0][0], r[0][1])) if len(r) == 1 else None
            return None
        if a[0] == 'rec' or b[0] == 'rec':
            la, lb = (x[1] if x[0] == 'rec' else self.temp(st, x) for x in (a, b))
            cls = self.strip(t)
            for m in self.p.methods_of.get(cls, []):
                if m.get('op') == '<' and len(m['params']) == 1:
                    r = self.inline(m, st, la, (('refto', lb),))
                    return self.truth(r[0][0], self.argval(r[0][0], r[0][1])) if len(r) == 1 else None
            if cls.startswith('std::pair<'):
                ta = targs(cls)
                for f, tt in (('first', ta[0]), ('second', ta[1])):
                    x, y = (('rec', ('fld', l, f)) if self.is_rec(tt) else self.read(st, ('fld', l, f)) for l in (la, lb))
                    r = self.lessv(st, x, y, tt)
                    if r is None or r: return r
                    r = self.lessv(st, y, x, tt)
                    if r is None: return None
                    if r: return False
                return False
            return None
        if a == b: return False
        x, y = (self.norm(st, v) if v[0] in ('vec', 'oset', 'empty', 'push') else None for v in (a, b))
        if x is not None and y is not None:
            et = targs(self.strip(t))[0]
            for p, q in zip(x[1], y[1]):
                for u, v, res in ((p, q, True), (q, p, False)):
                    r = self.lessv(st, u, v, et)
                    if r is None: return None
                    if r: return res
            return len(x[1]) < len(y[1])
        return self.cmp(st, '<', a, b)
    def eqv(self, st, a, b, t):
        if a[0] == 'rec' or b[0] == 'rec':
            la, lb = (x[1] if x[0] == 'rec' else self.temp(st, x) for x in (a, b))
            return self.opcall(st, '==', self.strip(t), la, lb, None)
        if a == b: return True
        return self.cmp(st, '==', a, b)
    def keyof(self, st, x, ismap, kt):
        if not ismap: return x
        l = ('fld', x[1], 'first')
        if self.is_rec(kt): return ('rec', l)
        v = self.read(st, l)
        return ('rec', l) if kt.startswith('std::pair<') and v[0] == 'init' else v
    def place(self, st, items, k, ismap, kt, comp=None):
        """(index of the first element not less than k, whether it is equal); None if unknown"""
        if len(items) > 12:
            lo, hi = 0, len(items)
            while lo < hi:
                m = (lo + hi) // 2
                r = self.lessv(st, self.keyof(st, items[m], ismap, kt), k, kt, comp)
                if r is None: return None
                if r: lo = m + 1
                else: hi = m
            if lo == len(items): return lo, False
            r = self.lessv(st, k, self.keyof(st, items[lo], ismap, kt), kt, comp)
            return None if r is None else (lo, not r)
        for i, x in enumerate(items):
            kx = self.keyof(st, x, ismap, kt)
            r = self.lessv(st, kx, k, kt, comp)
            if r is None: return None
            if not r:
                r2 = self.lessv(st, k, kx, kt, comp)
                if r2 is None: return None
                return i, not r2
        return len(items), False
    def argkey(self, st, a, kt):
        if a[0] == 'refto': return ('rec', a[1]) if self.is_rec(kt) or kt.startswith('std::pair<') and self.read(st, a[1])[0] != 'pair' else self.pairkey(st, self.read(st, a[1]), kt)
        return self.pairkey(st, a, kt)
    def pairkey(self, st, v, kt): return self.pairrec(st, v, kt) if v[0] == 'pair' else v
    def is_lv(self, e):
        if e.get('k') == 'call' and '_Bit_reference' in e.get('t', ''): return True
        return ArrayInterp.is_lv(self, e)
    def lv(self, e, st):
        if e['k'] == 'call' and '_Bit_reference' in e.get('t', ''):
            return [(s, v[1] if v[0] == 'refto' else self.temp(s, v)) for s, v in self.call(e, st)]
        return ArrayInterp.lv(self, e, st)
    def cmp(self, st, op, a, b):
        if a[0] == 'nit' and b[0] == 'nit' and op in ('==', '!='): return (a == b) == (op == '==')
        return ArrayInterp.cmp(self, st, op, a, b)
    def construct_atomic(self, e, st, t):
        out = []
        for s, v in ArrayInterp.construct_atomic(self, e, st, t):
            if e.get('cc') in ('copy', 'move'): v = self.clone(s, v)
            if v[0] == 'resize' and isC(v[1]) and t.startswith('std::vector<'):
                et = targs(t)[0]
                if v[2] and v[2][0][0] not in ('dflt', 'mk'): v = ('vec', tuple(self.clone_elem(s, v[2][0]) for _ in range(v[1][1])))
                elif v[1][1] <= 64: v = ('vec', tuple(self.default_value(s, et) for _ in range(v[1][1])))
            out.append((s, v))
        return out
    def nodes(self, st, obj):
        v = self.read(st, obj)
        if v[0] == 'empty': return ()
        if v[0] == 'oset': return v[1]
        return None
    def std_call(self, e, st, obj, args):
        mn, op, cls = e.get('mn'), e.get('op'), self.strip(e.get('cls') or '')
        if cls == 'std::_Bit_reference' and obj is not None:
            if op == '=': self.write(st, obj, self.argval(st, args[0]), e); return [(st, ('refto', obj))]
            if e.get('conv'): return [(st, self.read(st, obj))]
        if obj is not None and cls.startswith('std::basic_string<') and mn in ('substr', 'erase') and args:
            vs = [self.argval(st, a) for a in args]
            items = self.contents(st, obj)
            if items is not None and isC(vs[0]) and all(isC(v) or v[0] == 'dflt' for v in vs):
                i, n = vs[0][1], len(items)
                k = vs[1][1] if len(vs) > 1 and isC(vs[1]) else n
                if not 0 <= i <= n: self.problem(st, 'bounds', '%s from %d of a string of %d characters' % (mn, i, n), e); return None
                j = n if k < 0 else min(n, i + k)
                if mn == 'substr': return [(st, ('vec', items[i:j]))]
                self.set_contents(st, obj, 'vec', items[:i] + items[j:], e)
                return [(st, ('refto', obj))]
        if obj is not None and op == '()' and cls.startswith(('std::less<', 'std::greater<')) and len(args) == 2:
            t = targs(cls)[0]
            a, b = (('rec', x[1]) if x[0] == 'refto' and self.is_rec(t) else self.argval(st, x) for x in args)
            if cls.startswith('std::greater<'): a, b = b, a
            r = self.lessv(st, a, b, t)
            return None if r is None else [(st, C(1 if r else 0))]
        if obj is not None and cls.startswith(SEQ):
            r = self.seq_call(e, st, obj, args, mn, op, cls)
            if r is not None: return r
        if obj is not None and cls.startswith(SET + MAP):
            r = self.ord_call(e, st, obj, args, mn, op, cls)
            if r is not None: return r
        if obj is not None and op in ('*', '->', '++', '--', '=', '==', '!='):
            v = self.read(st, obj)
            if v[0] == 'nit' and op not in ('=',):
                if op in ('==', '!='):
                    r = self.cmp(st, op, v, self.argval(st, args[0]))
                    return None if r is None else [(st, C(1 if r else 0))]
                items = self.nodes(st, v[1])
                if items is None: return None
                if v[2] is not None and v[2] not in items: self.problem(st, 'iterator', 'an iterator to an erased element is used', e); return None
                if op in ('*', '->'):
                    if v[2] is None: self.problem(st, 'bounds', 'the end of a set or map is dereferenced', e); return None
                    l = v[2][1] if v[2][0] == 'rec' else self.temp(st, v[2])
                    return [(st, ('ptr', l) if op == '->' else ('refto', l))]
                i = len(items) if v[2] is None else items.index(v[2])
                i += 1 if op == '++' else -1
                if not 0 <= i <= len(items): self.problem(st, 'bounds', 'an iterator is moved past the ends of a set or map', e); return None
                self.write(st, obj, ('nit', v[1], items[i] if i < len(items) else None), e)
                return [(st, v if args else ('refto', obj))]
        if obj is None and op in ('==', '!=') and len(args) == 2:
            a, b = self.argval(st, args[0]), self.argval(st, args[1])
            if a[0] == 'nit' and b[0] == 'nit': return [(st, C(1 if (a == b) == (op == '==') else 0))]
            r = self.same_seq(st, a, b, e)
            if r is not None: return [(st, C(1 if r == (op == '==') else 0))]
        return ArrayInterp.std_call(self, e, st, obj, args)
    def same_seq(self, st, a, b, e):
        if a[0] not in ('vec', 'empty', 'oset', 'push', 'str') or b[0] not in ('vec', 'empty', 'oset', 'push', 'str'): return None
        x, y = self.norm(st, a), self.norm(st, b)
        if x is None or y is None: return None
        if len(x[1]) != len(y[1]): return False
        t = self.strip((e['args'][0] or {}).get('t', ''))
        et = targs(t)[0] if '<' in t else ''
        for p, q in zip(x[1], y[1]):
            r = self.eqv(st, p, q, et)
            if r is None: return None
            if not r: return False
        return True
    def index(self, st, obj, i, items, e):
        if isC(i):
            if not 0 <= i[1] < len(items): self.problem(st, 'bounds', 'element %d of a sequence of %d elements is used' % (i[1], len(items)), e); return None
            x = items[i[1]]
            return ('refto', x[1] if x[0] == 'rec' else ('el', obj, i))
        return None
    def seq_call(self, e, st, obj, args, mn, op, cls):
        self.alive(st, obj, e)
        items = self.contents(st, obj)
        et = targs(cls)[0]
        if items is None: return None
        n = len(items)
        vec = cls.startswith('std::vector<')
        if mn in ('push_back', 'push'):
            x = self.element(st, args[0], et)
            self.set_contents(st, obj, 'vec', items + (x,), e, 0 if vec else None)
            return [(st, C(0))]
        if mn in ('pop_back', 'pop'):
            if not n: self.problem(st, 'bounds', 'an element is removed from an empty sequence', e); return [(st, C(0))]
            gone = items[0] if cls.startswith('std::queue') else items[-1]
            if gone[0] == 'rec': self.kill(st, gone[1], 'an element of a sequence is used after it has been removed')
            self.set_contents(st, obj, 'vec', items[1:] if cls.startswith('std::queue') else items[:-1], e)
            return [(st, C(0))]
        if mn in ('back', 'top', 'front'):
            i = 0 if mn == 'front' else n - 1
            r = self.index(st, obj, C(i), items, e)
            return [(st, r)] if r else None
        if op == '[]' or mn == 'at':
            r = self.index(st, obj, self.argval(st, args[0]), items, e)
            return [(st, r)] if r else None
        if mn in ('size',): return [(st, C(n))]
        if mn == 'empty': return [(st, C(0 if n else 1))]
        if mn in ('begin', 'cbegin'): return [(st, ('it', obj, C(0)))]
        if mn in ('end', 'cend'): return [(st, ('it', obj, C(n)))]
        if mn in ('rbegin', 'rend'): return [(st, ('it', obj, C(n - 1 if mn == 'rbegin' else -1)))]
        if mn == 'clear':
            for x in items:
                if x[0] == 'rec': self.kill(st, x[1], 'an element of a sequence is used after it has been removed')
            self.set_contents(st, obj, 'vec', (), e); return [(st, C(0))]
        if mn == 'resize':
            k = self.argval(st, args[0])
            if not isC(k): return None
            if k[1] <= n: self.set_contents(st, obj, 'vec', items[:k[1]], e); return [(st, C(0))]
            if k[1] > 300: return None
            pad = []
            for _ in range(k[1] - n):
                if len(args) > 1 and self.argval(st, args[1])[0] not in ('dflt',): pad.append(self.element(st, args[1], et))
                else: pad.append(self.default_value(st, et))
            self.set_contents(st, obj, 'vec', items + tuple(pad), e, 0)
            return [(st, C(0))]
        if op == '=' and args:
            v = self.norm(st, self.argval(st, args[0]))
            if v is None: return None
            self.write(st, obj, self.clone(st, v), e); return [(st, ('refto', obj))]
        if mn == 'assign' and len(args) == 2:
            r = self.itrange(st, self.argval(st, args[0]), self.argval(st, args[1]))
            if r is not None: self.set_contents(st, obj, 'vec', tuple(self.clone_elem(st, x) for x in r), e, 0 if vec else None); return [(st, C(0))]
        if mn == 'assign' and len(args) == 2 and isC(self.argval(st, args[0])):
            self.write(st, obj, ('vec', tuple(self.element(st, args[1], et) for _ in range(self.argval(st, args[0])[1]))), e); return [(st, C(0))]
        if mn == 'insert' and len(args) >= 2:
            p = self.argval(st, args[0])
            if p[0] == 'it' and p[1] == obj and isC(p[2]):
                if len(args) == 2: new = (self.element(st, args[1], et),)
                else:
                    a, b = self.argval(st, args[1]), self.argval(st, args[2])
                    r = self.itrange(st, a, b)
                    if r is None: return None
                    new = tuple(self.clone_elem(st, x) for x in r)
                i = p[2][1]
                self.set_contents(st, obj, 'vec', items[:i] + new + items[i:], e, 0 if vec else None)
                return [(st, ('it', obj, C(i)))]
            return None
        if mn == 'erase':
            vs = [self.argval(st, a) for a in args]
            if all(v[0] == 'it' and v[1] == obj and isC(v[2]) for v in vs):
                i = vs[0][2][1]
                j = vs[1][2][1] if len(vs) > 1 else i + 1
                if not 0 <= i <= j <= n: self.problem(st, 'bounds', 'elements %d to %d of a sequence of %d elements are erased' % (i, j, n), e); return None
                self.set_contents(st, obj, 'vec', items[:i] + items[j:], e, i if vec else None)
                return [(st, ('it', obj, C(i)))]
            return None
        return None
    def ord_call(self, e, st, obj, args, mn, op, cls):
        self.alive(st, obj, e)
        items = self.nodes(st, obj)
        if items is None: return None
        ismap = cls.startswith(MAP)
        multi = cls.startswith(('std::multi',))
        ta = targs(cls)
        kt = ta[0]
        comp = ta[2 if ismap else 1] if len(ta) > (2 if ismap else 1) else None
        if comp is not None and comp.startswith('std::less<'): comp = None
        pt = 'std::pair<const %s, %s>' % (kt, ta[1]) if ismap else kt
        end = ('nit', obj, None)
        it = lambda i: ('nit', obj, items[i]) if i < len(items) else end
        if mn in ('size',): return [(st, C(len(items)))]
        if mn == 'empty': return [(st, C(0 if items else 1))]
        if mn in ('begin', 'cbegin'): return [(st, it(0))]
        if mn in ('end', 'cend'): return [(st, end)]
        if mn == 'clear': self.write(st, obj, ('oset', ()), e); return [(st, C(0))]
        if mn in ('find', 'count', 'lower_bound', 'upper_bound') or op == '[]':
            k = self.argkey(st, args[0], kt)
            p = self.place(st, items, k, ismap, kt, comp)
            if p is None: return None
            i, eq = p
            if mn == 'find': return [(st, it(i) if eq else end)]
            if mn == 'lower_bound': return [(st, it(i))]
            if mn in ('upper_bound', 'count'):
                j = i
                while j < len(items):
                    r = self.lessv(st, k, self.keyof(st, items[j], ismap, kt), kt, comp)
                    if r is None: return None
                    if r: break
                    j += 1
                return [(st, it(j) if mn == 'upper_bound' else C(j - i))]
            if not eq:
                n = self.newloc('pair')
                if k[0] == 'rec': self.copy_tree(st, ('fld', n, 'first'), k[1])
                else: st.store[('fld', n, 'first')] = k
                d = self.default_value(st, ta[1])
                if d[0] == 'rec': self.copy_tree(st, ('fld', n, 'second'), d[1])
                else: st.store[('fld', n, 'second')] = d
                items = items[:i] + (('rec', n),) + items[i:]
                self.write(st, obj, ('oset', items), e)
            return [(st, ('refto', ('fld', items[i][1], 'second')))]
        if mn == 'insert':
            if len(args) == 2:
                a, b = self.argval(st, args[0]), self.argval(st, args[1])
                src = None
                if a[0] == 'nit' and b[0] == 'nit' and a[1] == b[1]:
                    o = self.nodes(st, a[1])
                    if o is not None: src = o[(len(o) if a[2] is None else o.index(a[2])):(len(o) if b[2] is None else o.index(b[2]))]
                elif a[0] == 'it' and b[0] == 'it': src = self.itrange(st, a, b)
                if src is None:
                    if a[0] == 'nit': new = [self.element(st, args[1], pt)]     # insert with a hint
                    else: return None
                else: new = [self.clone_elem(st, x) for x in src]
            else: new = [self.element(st, args[0], pt)]
            res = None
            for x in new:
                p = self.place(st, items, self.keyof(st, x, ismap, kt), ismap, kt, comp)
                if p is None: return None
                i, eq = p
                if eq and not multi: res = ('pair', ('nit', obj, items[i]), C(0)); continue
                if multi:
                    while i < len(items):
                        r = self.lessv(st, self.keyof(st, x, ismap, kt), self.keyof(st, items[i], ismap, kt), kt, comp)
                        if r is None: return None
                        if r: break
                        i += 1
                items = items[:i] + (x,) + items[i:]
                res = ('pair', ('nit', obj, x), C(1))
            self.write(st, obj, ('oset', items), e)
            if len(args) == 2: return [(st, res[1] if res else C(0))]
            return [(st, res if not multi else res[1])]
        if mn == 'erase':
            vs = [self.argval(st, a) for a in args]
            if len(vs) == 2 and vs[0][0] == 'nit' and vs[1][0] == 'nit':
                i = len(items) if vs[0][2] is None else items.index(vs[0][2])
                j = len(items) if vs[1][2] is None else items.index(vs[1][2])
                self.write(st, obj, ('oset', items[:i] + items[j:]), e); return [(st, vs[1])]
            if vs[0][0] == 'nit':
                if vs[0][2] is None or vs[0][2] not in items: self.problem(st, 'iterator', 'an element that is not there is erased', e); return None
                i = items.index(vs[0][2])
                self.write(st, obj, ('oset', items[:i] + items[i + 1:]), e); return [(st, ('nit', obj, items[i + 1] if i + 1 < len(items) else None))]
            k = self.argkey(st, args[0], kt)
            p = self.place(st, items, k, ismap, kt, comp)
            if p is None: return None
            if p[1]: self.write(st, obj, ('oset', items[:p[0]] + items[p[0] + 1:]), e)
            return [(st, C(1 if p[1] else 0))]
        if op == '=' and args:
            v = self.argval(st, args[0])
            if v[0] == 'empty': v = ('oset', ())
            if v[0] != 'oset': return None
            self.write(st, obj, self.clone(st, v), e); return [(st, ('refto', obj))]
        if mn == 'swap' and args[0][0] == 'refto':
            a, b = self.read(st, obj), self.read(st, args[0][1])
            self.write(st, obj, b, e); self.write(st, args[0][1], a, e); return [(st, C(0))]
        return None
    # ---- destruction
    def destroy(self, st, loc, cls):
        """-> states after ~cls() on loc and its members"""
        sts = [st]
        cls = self.strip(cls)
        d = [m for m in self.p.methods_of.get(cls, []) if m.get('kind') == 'dtor' and m.get('body') is not None]
        if d and self.can_inline(d[0], {}):
            sts = [s for s, _ in self.inline(d[0], st, loc, ())]
        if cls in self.p.recs:
            for c, f in self.p.all_fields(cls):
                t = f['ti'].get('t', '')
                if self.is_rec(t) and not f['ti'].get('ref') and not f['ti'].get('ptr'):
                    sts = [y for x in sts for y in self.destroy(x, ('fld', loc, f['n']), t)]
        return sts
    def ev_delete(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            self.on_delete(s, v, e)
            if v == NULL: out.append((s, C(0))); continue
            if v[0] != 'ptr': out.append((s, C(0))); continue
            if ('dead', v[1]) in s.ghost: self.problem(s, 'twice', 'an object is deleted twice', e); out.append((s, C(0))); continue
            t = self.strip((e['e'] or {}).get('t', '')).rstrip('* ').strip()
            dt = self.dyn_type(s, v[1]) or self.strip(t)
            for x in self.destroy(s, v[1], dt):
                self.kill(x, v[1], 'an object is used after it has been deleted')
                x.ghost['freed'] = x.ghost.get('freed', ()) + (v[1],)
                out.append((x, C(0)))
        return out

def shape(I, st, roots, data=1000):
    """canonical description of everything reachable from the roots; numbers from `data` on are names"""
    num, names, out = {}, {}, []
    todo = []
    def ref(l):
        path = []
        while l[0] in ('fld', 'el', 'mel', 'base'): path.append(l[2] if l[0] != 'base' else 'base'); l = l[1]
        if l not in num: num[l] = len(num); todo.append(l)
        return (num[l], tuple(path))
    def val(v):
        if not isinstance(v, tuple): return v
        if v and v[0] in ('ptr', 'rec', 'refto') and len(v) == 2: return (v[0], ref(v[1]))
        if v and v[0] in ('it', 'nit') and len(v) == 3 and isinstance(v[1], tuple): return (v[0], ref(v[1]), val(v[2]) if v[2] else None)
        if v and v[0] == 'c' and len(v) == 2 and isinstance(v[1], int) and v[1] >= data: return ('name', names.setdefault(v[1], len(names)))
        return tuple(val(x) for x in v)
    by = {}
    for k, v in st.store.items(): by.setdefault(root(k), []).append((k, v))
    for r in roots: ref(r)
    while todo:
        l = todo.pop(0)
        out.append(('dead', num[l], ('dead', l) in st.ghost))
        for k, v in sorted(by.get(l, []), key=lambda x: repr(x[0])):
            p, q = [], k
            while q[0] in ('fld', 'el', 'mel', 'base'): p.append(q[2] if q[0] != 'base' else 'base'); q = q[1]
            out.append((num[l], tuple(p), val(v)))
    return tuple(out)

def reachable(st, roots):
    seen, todo = set(), []
    by = {}
    for k, v in st.store.items(): by.setdefault(root(k), []).append(v)
    def add(l):
        l = root(l)
        if l not in seen: seen.add(l); todo.append(l)
    def scan(v):
        if not isinstance(v, tuple): return
        if v and v[0] in ('ptr', 'rec', 'refto') and len(v) == 2: add(v[1]); return
        if v and v[0] in ('it', 'nit') and len(v) == 3 and isinstance(v[1], tuple): add(v[1])
        for x in v: scan(x)
    for r in roots: add(r)
    while todo:
        for v in by.get(todo.pop(), ()): scan(v)
    return seen
def gc(st, roots):
    """forgets everything that cannot be reached from the roots any more"""
    keep = reachable(st, roots)
    for d in (st.store, st.base):
        for k in [k for k in d if k[0] == 'L' or k[0] in ('fld', 'el', 'mel', 'base')]:
            r = root(k)
            if r[0] == 'L' and r not in keep: del d[k]
    for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == 'dead' and root(k[1]) not in keep]: del st.ghost[k]
    st.trace = None
    return st
