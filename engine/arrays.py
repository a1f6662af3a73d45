"""Interpreter extension: arrays of known length reached through raw pointers, and the standard searches over them."""
from absint import Interp, C, isC, NULL, TooComplex, root

class ArrayInterp(Interp):
    EXACT = True
    def __init__(self, prog):
        Interp.__init__(self, prog)
        self.sizes = {}            # array -> number of elements
    def array(self, st, name, cells):
        """a known array; cells: list of values or of dicts (structures)"""
        a = ('A', name)
        self.sizes[a] = len(cells)
        for i, c in enumerate(cells):
            l = ('cell', a, i)
            if isinstance(c, dict):
                for k, v in c.items(): st.store[('fld', l, k)] = v
            else: st.store[l] = c
        return ('it', a, C(0))
    def cell(self, st, v, e):
        a, i = v[1], v[2]
        if a[0] == 'A' and isC(i):
            if not 0 <= i[1] < self.sizes.get(a, 1 << 60): st.ghost['oob'] = (a[1], i[1], self.sizes[a], self.stack[-1]['name'] if self.stack else '?', (e or {}).get('l'))
            return ('cell', a, i[1])
        return None
    def deref_at(self, st, v, e):
        if v[0] == 'it':
            c = self.cell(st, v, e)
            if c is not None: return c
        if v == NULL: st.ghost['nullderef'] = (self.stack[-1]['name'] if self.stack else '?', (e or {}).get('l'))
        return self.deref(v)
    def ptr_to(self, loc):
        if loc[0] == 'cell': return ('it', loc[1], C(loc[2]))
        return Interp.ptr_to(self, loc)
    def lv(self, e, st):
        k = e['k']
        if k == 'mem' and e.get('arrow') or k == 'un' and e['op'] == '*':
            out = []
            for s, v in self.ev(e['b'] if k == 'mem' else e['e'], st):
                l = self.deref_at(s, v, e)
                out.append((s, ('fld', l, e['f']) if k == 'mem' else l))
            return out
        if k == 'index':
            out = []
            for s, b in self.ev(e['b'], st):
                for s2, i in self.ev(e['i'], s):
                    if b[0] == 'it' and b[1][0] == 'A' and isC(self.add(b, i)[2]): out.append((s2, self.cell(s2, self.add(b, i), e)))
                    elif isC(i) and i[1] == 0 and b[0] == 'ptr': out.append((s2, b[1]))
                    else: out.append((s2, ('fld', self.deref(b), ('[]', i))))
            return out
        return Interp.lv(self, e, st)
    def cmp(self, st, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'it' and x[1][0] == 'A' and y == NULL: return {'==': False, '!=': True}.get(op)
        return Interp.cmp(self, st, op, a, b)
    def truth(self, st, v):
        if v[0] == 'it' and v[1][0] == 'A': return True
        return Interp.truth(self, st, v)
    # ---- standard searches
    def invoke(self, st, f, args, e):
        """calls a comparison; -> bool or None"""
        fn = self.p.fns.get(f[1]) if f is not None and f[0] == 'fn' else None
        if fn is None: return None
        r = self.inline(fn, st, None, args)
        if len(r) != 1: return None
        return self.truth(r[0][0], self.argval(r[0][0], r[0][1]))
    def opcall(self, st, op, t, a, b, e):
        """a op b for elements of class t at the locations a, b"""
        for m in self.p.methods_of.get(t, []):
            if m.get('op') == op and len(m['params']) == 1:
                r = self.inline(m, st, a, (('refto', b),))
                if len(r) == 1: return self.truth(r[0][0], self.argval(r[0][0], r[0][1]))
                return None
        x, y = self.read(st, a), self.read(st, b)
        for v, l in ((x, a), (y, b)):
            if v[0] == 'uninit': self.on_uninit(st, l, e)
        return self.cmp(st, op, x, y)
    def locof(self, st, a): return a[1] if a[0] in ('refto', 'rec') else self.temp(st, a)
    def std_call(self, e, st, obj, args):
        nm = (e.get('name') or '')
        if obj is None and nm in ('std::lower_bound', 'std::upper_bound', 'std::find', 'std::binary_search', 'std::find_if', 'std::equal_range') and len(args) >= 3:
            a, b = self.argval(st, args[0]), self.argval(st, args[1])
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and isC(a[2]) and isC(b[2]):
                t = self.strip((e['args'][0] or {}).get('t', '').replace('*const', '*')).rstrip('* ').replace('const ', '').strip()
                v = self.locof(st, args[2])
                f = self.argval(st, args[3]) if len(args) > 3 else None
                i = a[2][1]
                n = b[2][1] - i
                def probe(k):
                    c = self.cell(st, ('it', a[1], C(k)), e)
                    if nm == 'std::find': return self.opcall(st, '==', t, c, v, e)
                    if nm == 'std::find_if': return self.invoke(st, self.argval(st, args[2]), (('refto', c),), e)
                    x, y = (v, c) if nm == 'std::upper_bound' else (c, v)
                    return self.invoke(st, f, (('refto', x), ('refto', y)), e) if f else self.opcall(st, '<', t, x, y, e)
                if nm in ('std::find', 'std::find_if'):
                    while i < b[2][1]:
                        r = probe(i)
                        if r is None: return None
                        if r: break
                        i += 1
                elif nm == 'std::equal_range': return None
                else:                       # what is in the array need not be sorted: the same steps as the library
                    while n > 0:
                        h = n >> 1
                        r = probe(i + h)
                        if r is None: return None
                        if r != (nm == 'std::upper_bound'): i += h + 1; n -= h + 1
                        else: n = h
                if nm == 'std::binary_search':
                    if i >= b[2][1]: return [(st, C(0))]
                    c = self.cell(st, ('it', a[1], C(i)), e)
                    r = self.invoke(st, f, (('refto', v), ('refto', c)), e) if f else self.opcall(st, '<', t, v, c, e)
                    return None if r is None else [(st, C(0 if r else 1))]
                return [(st, ('it', a[1], C(i)))]
        return Interp.std_call(self, e, st, obj, args)
