"""Interpreter extension: blocks of memory (new[], malloc, realloc) of known length, machine arithmetic, uses of memory without a value."""
import functools, re
from absint import C, isC, NULL, TooComplex
from drive import DriveInterp
from arrays import ArrayInterp
import exact

BITS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'short': (16, True), 'unsigned short': (16, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'wchar_t': (32, True), 'size_t': (64, False), 'ptrdiff_t': (64, True)}
SIZE = {k: v[0] // 8 for k, v in BITS.items()}
SIZE['bool'] = 1

def wrap(x, t):
    b = BITS.get(t)
    if b is None: return x
    x &= (1 << b[0]) - 1
    return x - (1 << b[0]) if b[1] and x >> (b[0] - 1) else x

def fits(x, t):
    return wrap(x, t) == x

class MemInterp(DriveInterp):
    def new_block(self, st, n, elem):
        a = ('A', self.newloc('blk')[1:])
        self.sizes[a] = n
        st.ghost[('etype', a)] = elem
        for i in range(n): st.base[('cell', a, i)] = 'uninit'
        return a
    def cell(self, st, v, e):
        a, i = v[1], v[2]
        if a[0] != 'A' or not isC(i): return None
        n = self.sizes.get(a, 1 << 60)
        if not 0 <= i[1] < n: self.problem(st, 'bounds', 'element %d of an array of %d elements is used' % (i[1], n), e)
        return ('cell', a, i[1])
    def alive(self, st, loc, e=None):
        l = loc
        while l[0] in ('fld', 'el', 'mel', 'base'): l = l[1]
        if l[0] == 'cell' and ('dead', l[1]) in st.ghost: self.problem(st, 'dead', st.ghost[('dead', l[1])], e); return False
        return DriveInterp.alive(self, st, loc, e)
    def on_uninit(self, st, loc, e):
        if self.watch_uninit: self.problem(st, 'uninit', 'something is used that was never given a value', e)
    watch_uninit = True
    def lv(self, e, st):
        r = DriveInterp.lv(self, e, st)
        if e['k'] != 'mem': return r
        out = []
        for s, l in r:
            v = s.store.get(l)
            out.append((s, v[1] if v is not None and v[0] == 'refto' else l))        # a member that is a reference
        return out
    def decl_var(self, v, st):
        """local arrays"""
        m = re.match(r'^(.*?)\s*\[(\d+)\]$', self.strip(v['ti'].get('t', '')))
        if not m or v.get('static') or v['ti'].get('ref') or int(m.group(2)) > 4096: return DriveInterp.decl_var(self, v, st)
        t, init, n = m.group(1), v.get('init'), int(m.group(2))
        if self.is_rec(t) or '[' in t or init is not None and (init.get('k') != 'initlist'): return DriveInterp.decl_var(self, v, st)
        a = self.new_block(st, n, t)
        st.store[('L', self.frame, v['id'])] = ('it', a, C(0))
        if init is not None:
            for i in range(n):
                r = self.ev(init['args'][i], st) if i < len(init['args']) else [(st, C(0))]
                if len(r) != 1: raise TooComplex('initial values of an array')
                st, x = r[0]
                st.store[('cell', a, i)] = x
        return [st]
    # ---- allocation
    def ev_new(self, e, st):
        if not e.get('array'): return DriveInterp.ev_new(self, e, st)
        out = []
        for s, n in self.ev(e.get('size'), st):
            if not isC(n): raise TooComplex('size of a new array')
            t = self.strip(e['at'])
            if not 0 <= n[1] <= 16384: raise TooComplex('array of %d elements' % n[1])
            a = self.new_block(s, n[1], t)
            init = e.get('init')
            if self.is_rec(t):
                for i in range(n[1]):
                    v = self.default_value(s, t)
                    if v[0] == 'rec': self.copy_tree(s, ('cell', a, i), v[1])
            elif init and init.get('k') in ('initlist', 'zero'):
                for i in range(n[1]): s.store[('cell', a, i)] = C(0)
            elif self.atomic(t) or t.startswith('std::'):
                for i in range(n[1]): s.store[('cell', a, i)] = self.default_value(s, t)
            out.append((s, ('it', a, C(0))))
        return out
    def release_block(self, st, v, e, destroy=None):
        """-> states"""
        a = v[1]
        if not isC(v[2]) or v[2][1] != 0: self.problem(st, 'free', 'memory is released that was not allocated like this', e)
        if ('dead', a) in st.ghost: self.problem(st, 'twice', 'an array is released twice', e); return [st]
        sts = [st]
        if destroy:
            for i in range(self.sizes.get(a, 0)): sts = [y for x in sts for y in self.destroy(x, ('cell', a, i), destroy)]
        for x in sts: self.kill(x, a, 'an array is used after it has been released')
        return sts
    def ev_delete(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if v[0] == 'it' and v[1][0] == 'A':
                t = self.strip((e['e'] or {}).get('t', '')).strip()
                t = (t[:-1] if t.endswith('*') else t).strip()
                out += [(x, C(0)) for x in self.release_block(s, v, e, t if not t.endswith('*') and self.is_rec(t) else None)]
            else:
                if v[0] == 'uninit': self.problem(s, 'uninit', 'a pointer that was never given a value is deleted', e)
                if v[0] != 'ptr': out.append((s, C(0))); continue
                if ('dead', v[1]) in s.ghost: self.problem(s, 'twice', 'an object is deleted twice', e); out.append((s, C(0))); continue
                t = self.strip((e['e'] or {}).get('t', '')).rstrip('* ').strip()
                for x in self.destroy(s, v[1], self.dyn_type(s, v[1]) or self.strip(t)):
                    self.kill(x, v[1], 'an object is used after it has been deleted')
                    out.append((x, C(0)))
        return out
    # ---- arithmetic of the machine
    def binop(self, st, op, a, b, e=None):
        if op in ('<', '>', '<=', '>=', '==', '!=', '-') and a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and isC(a[2]) and isC(b[2]):
            x, y = a[2][1], b[2][1]
            return C(x - y) if op == '-' else C(1 if {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op] else 0)
        if op in ('<<', '>>') and isC(b) and not 0 <= b[1] < 64: raise TooComplex('shift by %d' % b[1])
        r = DriveInterp.binop(self, st, op, a, b, e)
        if isC(r) and op in ('+', '-', '*', '<<', '|', '&', '^', '~'): return C(wrap(r[1], self.strip((e or {}).get('t', ''))))
        return r
    def ev_un(self, e, st):
        r = DriveInterp.ev_un(self, e, st)
        if e['op'] in ('-', '~'): return [(s, C(wrap(v[1], self.strip(e.get('t', '')))) if isC(v) else v) for s, v in r]
        return r
    def cast(self, st, v, e):
        if isC(v) and e.get('ck') == 'IntegralCast': return C(wrap(v[1], self.strip((e.get('ti') or {}).get('t', ''))))
        if v[0] == 'raw':
            t = self.strip((e.get('ti') or {}).get('t', '')).rstrip('* ').strip()
            if t in ('void', ''): return v
            n = SIZE.get(t) or (8 if t.endswith('*') else None)
            if n is None: raise TooComplex('allocation of ' + t)
            if v[1] % n: self.problem(st, 'bounds', 'memory is allocated for part of an element', e)
            a = self.new_block(st, v[1] // n, t)
            if v[2] is not None:
                for i in range(min(self.sizes[a], self.sizes[v[2]])):
                    c = ('cell', v[2], i)
                    if c in st.store: st.store[('cell', a, i)] = st.store[c]; st.base.pop(('cell', a, i), None)
                self.kill(st, v[2], 'an array is used after realloc may have moved it')
            return ('it', a, C(0))
        return DriveInterp.cast(self, st, v, e)
    def std_call(self, e, st, obj, args):
        nm = (e.get('name') or '').replace('std::', '')
        if obj is None and nm in ('malloc', 'calloc', 'realloc', 'free', 'memcpy', 'memmove', 'memset', 'sort', 'stable_sort', 'fill', 'copy'):
            vs = [self.argval(st, a) for a in args]
            if nm == 'malloc' and isC(vs[0]): return [(st, ('raw', vs[0][1], None))]
            if nm == 'realloc' and isC(vs[1]) and (vs[0] == NULL or vs[0][0] == 'it' and vs[0][1][0] == 'A'):
                if vs[0] != NULL:
                    if ('dead', vs[0][1]) in st.ghost: self.problem(st, 'dead', 'realloc of an array that was released', e)
                    if vs[0][2] != C(0): self.problem(st, 'free', 'realloc of memory that was not allocated like this', e)
                return [(st, ('raw', vs[1][1], None if vs[0] == NULL else vs[0][1]))]
            if nm == 'free':
                if vs[0] == NULL: return [(st, C(0))]
                if vs[0][0] == 'it' and vs[0][1][0] == 'A': return [(x, C(0)) for x in self.release_block(st, vs[0], e)]
            if nm in ('memcpy', 'memmove') and isC(vs[2]) and all(v[0] == 'it' and v[1][0] == 'A' and isC(v[2]) for v in vs[:2]):
                t = st.ghost.get(('etype', vs[0][1]), '')
                n = SIZE.get(t) or (8 if t.endswith('*') else None)
                if n:
                    got = []
                    for i in range(vs[2][1] // n): got.append(self.read(st, self.cell(st, self.add(vs[1], C(i)), e)))
                    for i, x in enumerate(got): self.write(st, self.cell(st, self.add(vs[0], C(i)), e), x, e)
                    return [(st, vs[0])]
            if nm == 'memset' and isC(vs[1]) and vs[1][1] in (0, 255, -1) and isC(vs[2]) and vs[0][0] == 'it' and vs[0][1][0] == 'A' and isC(vs[0][2]):
                t = st.ghost.get(('etype', vs[0][1]), '')
                n = SIZE.get(t) or (8 if t.endswith('*') else None)
                if n:
                    for i in range(vs[2][1] // n): self.write(st, self.cell(st, self.add(vs[0], C(i)), e), C(0) if vs[1][1] == 0 else C(wrap(-1, t)), e)
                    return [(st, vs[0])]
            if nm in ('fill',) and all(v[0] == 'it' and v[1][0] == 'A' and isC(v[2]) for v in vs[:2]):
                for i in range(vs[1][2][1] - vs[0][2][1]): self.write(st, self.cell(st, self.add(vs[0], C(i)), e), vs[2], e)
                return [(st, C(0))]
            if nm == 'copy' and all(v[0] == 'it' and v[1][0] == 'A' and isC(v[2]) for v in vs[:3]):
                n = vs[1][2][1] - vs[0][2][1]
                t = st.ghost.get(('etype', vs[0][1]), '')
                for i in range(n):
                    a, b = self.cell(st, self.add(vs[0], C(i)), e), self.cell(st, self.add(vs[2], C(i)), e)
                    if self.is_rec(t): self.copy_rec(st, b, a, t)
                    else: self.write(st, b, self.read(st, a), e)
                return [(st, self.add(vs[2], C(n)))]
            if nm in ('sort', 'stable_sort') and all(v[0] == 'it' and v[1][0] == 'A' and isC(v[2]) for v in vs[:2]) and vs[0][1] == vs[1][1]:
                return self.sort(st, vs, e)
        return DriveInterp.std_call(self, e, st, obj, args)
    def sort(self, st, vs, e):
        a, lo, hi = vs[0][1], vs[0][2][1], vs[1][2][1]
        t = self.strip((e['args'][0] or {}).get('t', '')).rstrip('* ').strip()
        if lo < hi: self.cell(st, ('it', a, C(lo)), e); self.cell(st, ('it', a, C(hi - 1)), e)
        f = vs[2] if len(vs) > 2 else None
        tmp = []
        for i in range(lo, hi):
            n = self.newloc('srt')
            c = ('cell', a, i)
            self.move_tree(st, n, c)
            tmp.append(n)
        def less(x, y):
            r = self.invoke(st, f, (('refto', x), ('refto', y)), e) if f else self.opcall(st, '<', t, x, y, e)
            if r is None: raise TooComplex('order of a sort')
            return r
        def cmpf(x, y): return -1 if less(x, y) else 1 if less(y, x) else 0
        for i, n in enumerate(sorted(tmp, key=functools.cmp_to_key(cmpf))):
            self.move_tree(st, ('cell', a, lo + i), n)
        return [(st, C(0))]
    def move_tree(self, st, dst, src):
        for k in [k for k in st.store if exact.under(k, dst)]: del st.store[k]
        for k in [k for k in st.base if exact.under(k, dst)]: del st.base[k]
        for d in (st.store, st.base):
            for k in [k for k in d if exact.under(k, src)]:
                d[self.rebase(k, src, dst)] = d.pop(k)
