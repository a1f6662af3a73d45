"""C01 - comparison laws.

Each class with comparison functions is given a finite universe of abstract objects: every attribute is an
ordinal (only its order relative to the same attribute of another object is known), sequences have up to two
abstract elements, polymorphic classes range over all their concrete subclasses.  The comparison functions are
evaluated over the ordering domain for every pair and the resulting relations are checked against the laws.
Comparisons of attributes that are themselves of a class with comparison functions are taken to be lawful
(each class is checked on its own)."""
import itertools
from absint import Interp, State, C, isC, TooComplex, root, NULL
from model import walk
from facts import Broken

# class -> (flags, identity attributes).  'total': neither-less implies equal.  Identity attributes: objects
# that differ only there must be told apart by == and by <.
CLASSES = {
    'dfa::position':        ('total', ['m_Line', 'm_Column', 'm_Offset']),
    'dfa::range<int>':      ('total', ['m_Lower', 'm_Upper']),
    'dfa::symbol_set':      ('total', ['m_Symbols']),
    'dfa::transition':      ('total', ['m_SymbolSet', 'm_NewState']),
    'dfa::accept_action':   ('', ['m_Symbol']),
    'compiler::language_accept_action': ('', ['m_Symbol', 'm_UnitType']),
    'dfa::lexeme':          ('', ['m_Matched', 'm_Symbols', 'm_Position']),
    'util::astnode':        ('', ['m_ItemIdentifier', 'm_Lexeme', 'm_Children']),
    'contextfree::item':    ('total', []),
    'contextfree::rule':    ('total', ['m_NonTerminal', 'm_Items']),
    'contextfree::item_set': ('total', ['m_Items']),
    'lr::lr0_item':         ('total', ['m_Offset', 'm_Rule']),
    'lr::lr1_item':         ('total', ['m_Lr0Item', 'm_LookAhead']),
    'lr::lalr_state':       ('total', []),
    'lr::lr_action':        ('total', ['m_Type', 'm_NextState', 'm_Item', 'm_Rule']),
    'lr::conflict':         ('', ['m_StateId', 'm_Token', 'm_Shift', 'm_Reduce']),
    'lr::lalr_builder::lr_item_id': ('total', ['state_id', 'item_id', 'm_StateId', 'm_ItemId', 'first', 'second']),
    'lr::parser_tables::symbol_equivalent': ('total', ['m_OriginalSymbol']),
    'compiler::console':    ('identity', []),
}
OPS = ('==', '!=', '<', '>', '<=', '>=')
NULLTOK = ('tok', 'null', 0)
NUL = ('NULL', {})      # the null pointer as an argument of a comparison of pointers

class OrdInterp(Interp):
    MAXDEPTH = 14
    SEQ = ('contextfree::item_set',)
    def __init__(self, p, subject):
        Interp.__init__(self, p)
        self.subject = subject
        self.limit = 60000
        if subject.startswith('contextfree::item_set'): self.SEQ = ()
        if subject.startswith('util::container'): self.ATOMIC = ()
    # tokens: ('tok', kind, n)
    def tok(self, st, x):
        """token of a value or of an object location"""
        if x is None: return None
        if x[0] == 'tok': return x
        if x == NULL: return NULLTOK
        if x[0] == 'item': return self.tok(st, x[1])
        if x[0] == 'at': return self.tok(st, x[1])
        if x[0] in ('ptr', 'rec', 'refto'): return self.tok(st, x[1])
        v = st.store.get(x)
        if v is not None and v[0] in ('tok', 'refto'): return self.tok(st, v)
        if x[0] == 'el':
            v = self.elem(st, x)
            return v if v and v[0] == 'tok' else None
        return None
    def cmp(self, st, op, a, b):
        if a[0] == 'tok' and b == NULL: b = NULLTOK
        elif b[0] == 'tok' and a == NULL: a = NULLTOK
        if op in ('<', '>', '<=', '>=') and (a[0] == 'ptr' and b == NULL or a == NULL and b[0] == 'ptr'):
            x, y = (1, 0) if b == NULL else (0, 1)
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        if a[0] == 'tok' and b[0] == 'tok':
            if op in ('==', '!=') : return (a[2] == b[2]) == (op == '==')
            return {'<': a[2] < b[2], '>': a[2] > b[2], '<=': a[2] <= b[2], '>=': a[2] >= b[2]}[op]
        if a[0] == 'item' and b[0] == 'item' and a[1][0] == 'tok' and b[1][0] == 'tok':
            return self.cmp(st, op, a[1], b[1]) if op in ('==', '!=') and a[1] == b[1] else (op == '!=') if op in ('==', '!=') else None
        for x, y in ((a, b), (b, a)):
            if (x[0] in ('item',)) and y == NULL and op in ('==', '!='): return op == '!='
        if a[0] == 'vec' and b[0] == 'vec':
            ka, kb = [t[2] if t[0] == 'tok' else t[1] for t in a[1]], [t[2] if t[0] == 'tok' else t[1] for t in b[1]]
            return {'==': ka == kb, '!=': ka != kb, '<': ka < kb, '>': ka > kb, '<=': ka <= kb, '>=': ka >= kb}[op]
        if a[0] == 'typeid' and b[0] == 'typeid':
            return Interp.cmp(self, st, op, a, b)
        if a[0] == 'ptr' and b[0] == 'ptr' and op in ('<', '>', '<=', '>=') and a[1][0] == 'O' and b[1][0] == 'O':
            x, y = a[1][1], b[1][1]
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        return Interp.cmp(self, st, op, a, b)
    def ptr_eq(self, st, a, b):
        if a == b: return True
        if a[0] == 'ptr' and b[0] == 'ptr' and root(a[1])[0] == 'O' and root(b[1])[0] == 'O' and root(a[1]) != root(b[1]): return False
        return Interp.ptr_eq(self, st, a, b)
    def truth(self, st, v):
        if v[0] == 'item': return True
        return Interp.truth(self, st, v)
    def dyncast(self, st, v, e):
        t = self.strip(e['t']).rstrip(' *').strip()
        if v[0] == 'ptr':
            d = st.ghost.get(('type', v[1]))
            if d: return v if self.p.derives(d, t) else NULL
        return Interp.dyncast(self, st, v, e)
    def ev_typeid(self, e, st):
        if 'e' in e:
            return [(s, ('typeid', s.ghost.get(('type', l), l))) for s, l in self.lv(e['e'], st)]
        return [(st, ('typeid', e['of']))]
    def on_call(self, st, e, fn, obj, args):
        if e['k'] != 'call': return None
        mn, op = e.get('mn', ''), e.get('op')
        # comparisons of attributes
        cands = ([obj] if obj is not None else []) + list(args)
        if op in OPS or op == '()' or 'compare' in mn:
            if op == '()': cands = list(args)
            toks = [self.tok(st, c) for c in cands]
            if len(toks) == 2 and toks[0] and toks[1]:
                a, b = toks[0], toks[1]
                if op in OPS: return [(st, C(1 if self.cmp(st, op, a, b) else 0))]
                rt = e.get('t')
                if rt == 'bool': return [(st, C(1 if a[2] < b[2] else 0))]
                return [(st, C((a[2] > b[2]) - (a[2] < b[2])))]
        if mn == 'before' and e.get('cls') == 'std::type_info':
            a = self.read(st, obj) if obj in st.store else None
            return [(st, C(0))] if False else None
        cls = e.get('cls', '')
        if obj is not None and any(cls == q or cls.startswith(q + '::') for q in self.SEQ):
            v = self.read(st, obj)
            if cls in self.SEQ and mn in ('size', 'begin', 'end', 'empty'):
                return self.std_call(e, st, obj, args)
            if cls not in self.SEQ and v[0] == 'it':
                if op in ('==', '!='): return self.std_compare(st, op, v, self.argval(st, args[0]), e)
                e2 = dict(e); e2['cls'] = 'std::iterator'
                if op == '*': return [(st, self.elem(st, ('el', v[1], v[2])))] if e.get('rt') == 'val' else [(st, ('refto', ('el', v[1], v[2])))]
                return self.std_call(e2, st, obj, args)
        # accessor of an attribute object: an attribute of it
        if obj is not None and (e.get('cm') or e.get('arrow')) and not cls.startswith('std::') and not self.atomic(cls):
            t = self.tok(st, obj)
            if t and t[0] == 'tok':
                return [(st, ('refto', self.temp(st, ('tok', t[1] + '.' + mn, t[2])))) if e.get('rt') in ('ref', 'cref') else (st, ('tok', t[1] + '.' + mn, t[2]))]
        return None

def fields_used(P, fns):
    """fields read by the comparison functions of a class (through calls)"""
    used, seen, todo = set(), set(), list(fns)
    while todo:
        f = todo.pop()
        if f['id'] in seen: continue
        seen.add(f['id'])
        for n in walk(f['body']):
            if n['k'] == 'mem': used.add((n.get('cls'), n['f']))
            if n['k'] == 'call':
                for t in P.targets(n):
                    if len(seen) < 80: todo.append(t)
    return used

def comparison_fns(P, cls):
    """{op: fn} for the class, looking in bases too"""
    out = {}
    for c in [cls] + P.bases_of(cls):
        for f in P.methods_of.get(c, []):
            ps = f['params']
            if f.get('op') in OPS and len(ps) == 1:
                k = f['op'] + ('p' if ps[0]['ti'].get('ptr') else '')
                out.setdefault(k, f)
            if f['sn'] == 'compare' and f.get('static') and len(ps) == 2:
                out.setdefault('compare' + ('p' if ps[0]['ti'].get('ptr') else ''), f)
            if f['sn'] == 'compare_items' and len(ps) == 1: out.setdefault('compare_items', f)
    return out

def values_for(P, I, cls, f, depth=0):
    ti = f['ti']
    t = ti['t']
    if ti.get('sc') == 'enum':
        en = P.enums.get(I.strip(t))
        vs = [e['v'] for e in en['e']] if en else [0, 1, 2]
        vs = sorted(set(vs))
        return [C(v) for v in (vs[:1] + vs[len(vs) // 2:len(vs) // 2 + 1] + vs[-1:])]
    if ti.get('sc') == 'bool': return [C(0), C(1)]
    if ti.get('sc'): return [C(1), C(2), C(3)]
    if ti.get('ptr') and t.startswith('std::vector'):
        return [('pvec', v) for v in values_for(P, I, cls, {'n': f['n'], 'ti': {'t': t.rstrip(' *')}})]
    if t.startswith(('std::vector<', 'std::set<', 'std::list<', 'std::deque<')) or I.strip(t) in I.SEQ:
        a, b = ('tok', f['n'], 1), ('tok', f['n'], 2)
        seqs = [(), (a,), (b,), (a, b)]
        if t.startswith(('std::vector', 'std::list')): seqs += [(b, a), (a, a)]
        return [('vec', s) for s in seqs]
    if ti.get('ptr') and ti.get('pointee', '').startswith('unsigned'):
        return [('arr', x) for x in ((), (0,), (1,), (2,), (1, 0), (1, 1), (1, 2), (2, 1))]
    return [('tok', f['n'], 1), ('tok', f['n'], 2), ('tok', f['n'], 3)]

def universe(P, I, cls, used, ident, cap):
    """abstract objects: (dynamic class, {field: value})"""
    concrete = [cls] + sorted(P.subclasses(cls))
    concrete = [c for c in concrete if not P.recs[c]['abstract'] and P.recs[c]['file'].startswith(('/repo/TameParse', P.f.get('root', '/repo/TameParse')))]
    if not concrete: concrete = [cls]
    objs = []
    per = max(3, cap // len(concrete))
    for c in concrete:
        fl = [(o, f) for o, f in P.all_fields(c) if (o, f['n']) in used or f['n'] in ident]
        dom = [(f['n'], values_for(P, I, c, f)) for o, f in fl]
        # mutable caches do not take part
        dom = [(n, v) for n, v in dom if n not in [f['n'] for _, f in fl if f.get('mutable')]]
        if c == 'contextfree::item_set': dom = [(n, v) for n, v in dom if n not in ('m_MaxItem', 'm_Size')]
        total = 1
        for n, v in dom: total *= len(v)
        while total > per:
            big = max(range(len(dom)), key=lambda i: len(dom[i][1]))
            if len(dom[big][1]) <= 2: break
            total //= len(dom[big][1])
            dom[big] = (dom[big][0], dom[big][1][:-1])
            total *= len(dom[big][1])
        for combo in itertools.product(*[v for _, v in dom]):
            objs.append((c, {n: x for (n, _), x in zip(dom, combo)}))
    return objs

def place(P, I, st, loc, obj):
    c, fs = obj
    st.ghost[('type', loc)] = c
    for n, v in fs.items():
        l = ('fld', loc, n)
        if v[0] == 'pref':
            h = ('O', str(loc[1]) + '.ref')
            st.store[('fld', h, 'item')] = v[1]; st.store[l] = ('ptr', h)
        elif v[0] == 'pvec':
            h = ('O', str(loc[1]) + '.' + n)
            st.store[h] = v[1]; st.store[l] = ('ptr', h)
        elif v[0] == 'arr':
            h = ('O', str(loc[1]) + '.' + n)
            st.store[l] = ('ptr', h)
            for i, x in enumerate(v[1]): st.store[('fld', h, ('[]', C(i)))] = C(x)
            if v[1]: st.store[h] = C(v[1][0])
            else: st.store[l] = NULL
            st.store[('fld', loc, 'm_MaxItem')] = C(len(v[1]))
            st.store[('fld', loc, 'm_Size')] = C(sum(bin(x).count('1') for x in v[1]))
        else: st.store[l] = v

def evaluate(P, I, fn, a, b, ia, ib):
    st = State()
    la, lb = ('O', 'o%04d' % ia), ('O', 'o%04d' % ib)
    if a is not NUL and a[0] != 'TOK': place(P, I, st, la, a)
    if ia != ib and b is not NUL and b[0] != 'TOK': place(P, I, st, lb, b)
    def arg(p, l):
        o = a if l is la else b
        if o is NUL: return NULL
        if o[0] == 'TOK': return o[1] if p['ti'].get('ptr') else ('refto', I.temp(st, o[1]))
        return ('ptr', l) if p['ti'].get('ptr') else ('refto', l)
    ps = fn['params']
    try:
        if len(ps) == 2: res = I.run(fn, st, None, [arg(ps[0], la), arg(ps[1], lb)])
        else:
            f = fn
            if fn.get('virt'):
                f = I.resolve_virtual(fn['id'], a[0]) or fn
            res = I.run(f, st, la, [arg(ps[0], lb)])
    except TooComplex:
        return None
    vals = set()
    for s, v in res:
        v = I.argval(s, v)
        if not isC(v):
            r = I.truth(s, v)
            if r is None: return None
            v = C(1 if r else 0)
        vals.add(v[1])
    return vals.pop() if len(vals) == 1 else None

def show(o):
    if o is NUL: return 'NULL'
    if o[0] == 'TOK': return '#%d' % o[1][2]
    def sv(v):
        if v[0] == 'c': return str(v[1])
        if v[0] == 'tok': return '#%d' % v[2]
        if v[0] == 'vec': return '[' + ','.join(sv(x) for x in v[1]) + ']'
        if v[0] in ('pvec', 'pref'): return sv(v[1])
        if v[0] == 'arr': return str(list(v[1]))
        return str(v)
    return o[0].split('::')[-1] + '{' + ', '.join('%s=%s' % (n, sv(v)) for n, v in o[1].items()) + '}'

def relation(P, I, ctx, fn, objs, identity=False):
    """the relation a comparison function computes over the abstract objects; null added for pointers"""
    ps = fn['params']
    dom = list(objs)
    if len(ps) == 2 and ps[0]['ti'].get('ptr') and ps[1]['ti'].get('ptr') and NUL not in dom: dom = dom + [NUL]
    M = {}
    for i in range(len(dom)):
        for j in range(len(dom)):
            if i == j: M[i, i] = evaluate(P, I, fn, dom[i], dom[i], i, i) if identity or dom[i] is NUL else evaluate(P, I, fn, dom[i], dom[i], i, 5000 + i)
            else: M[i, j] = evaluate(P, I, fn, dom[i], dom[j], i, j)
        M['self', i] = evaluate(P, I, fn, dom[i], dom[i], i, i)
    ctx.count('comparison_functions'); ctx.count('abstract_pairs', len(dom) ** 2)
    return M, dom

class Laws:
    """checks one relation (or two) over an abstract universe"""
    def __init__(self, P, ctx, short): self.P, self.ctx, self.short = P, ctx, short
    def bad(self, name, fn, law, *objs):
        self.ctx.bad('%s::%s:%s' % (self.short, name, law.replace(' ', '-')),
                     '%s breaks "%s" for %s' % (self.P.where(fn), law, ', '.join('%s=%s' % (n, show(o)) for n, o in zip('abc', objs))))
    def law(self, name, fn, text, pred, dom):
        u = False
        n = len(dom)
        for i in range(n):
            for j in range(n):
                r = pred(i, j)
                if r is False: self.bad(name, fn, text, dom[i], dom[j]); return
                if r is None: u = True
        if u: self.ctx.unknown('%s %s: %s' % (self.short, name, text))
        else: self.ctx.ok('%s::%s %s over %d abstract pairs' % (self.short, name, text, n * n))
    def strict_weak_order(self, name, fn, M, dom):
        n = len(dom)
        def v(i, j): return M[i, j]
        self.law(name, fn, 'never less than itself or an identical copy', lambda i, j: None if v(i, i) is None or M['self', i] is None else (not v(i, i) and not M['self', i]), dom)
        self.law(name, fn, 'asymmetry', lambda i, j: None if v(i, j) is None or v(j, i) is None else i == j or not (v(i, j) and v(j, i)), dom)
        for i in range(n):
            for j in range(n):
                if i == j or v(i, j) is None: continue
                for k in range(n):
                    if v(j, k) is None or v(i, k) is None: continue
                    if v(i, j) and v(j, k) and not v(i, k) and i != k:
                        self.bad(name, fn, 'transitivity', dom[i], dom[j], dom[k]); return
                    if None not in (v(j, i), v(k, j), v(k, i)):
                        if not v(i, j) and not v(j, i) and not v(j, k) and not v(k, j) and (v(i, k) or v(k, i)) and i != k:
                            self.bad(name, fn, 'transitivity of equivalence', dom[i], dom[j], dom[k]); return
        self.ctx.ok('%s::%s transitive over %d abstract triples' % (self.short, name, n ** 3))

def eqv(a, b): return None if a is None or b is None else bool(a) == bool(b)

def check_class(P, ctx, cls, flags, ident, cap, objs=None, I=None):
    I = I or OrdInterp(P, cls)
    fns = comparison_fns(P, cls)
    if not fns: return 0
    subs = [g for f in fns.values() for g in [f] + [P.fns[i] for i in P.all_overriders(f['id']) if i in P.fns]]
    used = fields_used(P, subs)
    if objs is None:
        objs = universe(P, I, cls, used, ident, cap)
        if cls == 'dfa::accept_action': objs = [o for o in objs if o[0] == cls]
    identity = 'identity' in flags
    if identity: objs = (objs * 4)[:max(4, len(objs))]
    n = len(objs)
    R, D = {}, {}
    for op, fn in fns.items(): R[op], D[op] = relation(P, I, ctx, fn, objs, identity)
    L = Laws(P, ctx, cls)
    nm = lambda op: 'operator' + op if op in OPS else op
    def v(op, i, j): return R[op][i, j]
    def law(op, text, pred): L.law(nm(op), fns[op], text, pred, objs)
    EQ = '==' if '==' in R else '==p' if '==p' in R else None
    less = [o for o in ('<', 'compare', 'comparep') if o in R]
    for o in less: L.strict_weak_order(nm(o), fns[o], R[o], D[o])
    for o in less[1:]: law(o, 'agrees with ' + less[0], lambda i, j: eqv(v(o, i, j), v(less[0], i, j)))
    for E in [o for o in ('==', '==p') if o in R]:
        law(E, 'reflexivity', lambda i, j: None if v(E, i, i) is None else bool(v(E, i, i)) and bool(R[E]['self', i]))
        law(E, 'symmetry', lambda i, j: eqv(v(E, i, j), v(E, j, i)))
        if '<' in R and not identity:
            law(E, 'equal objects are not ordered', lambda i, j: None if None in (v(E, i, j), v('<', i, j)) else not (v(E, i, j) and v('<', i, j)))
            if 'total' in flags:
                law(E, 'objects that are not ordered are equal', lambda i, j: None if None in (v(E, i, j), v('<', i, j), v('<', j, i)) else bool(v(E, i, j)) == (not v('<', i, j) and not v('<', j, i)))
    if EQ:
        for N in [o for o in ('!=', '!=p') if o in R]:
            law(N, 'negates equality', lambda i, j: None if None in (v(N, i, j), v(EQ, i, j)) else bool(v(N, i, j)) != bool(v(EQ, i, j)))
    if '<' in R:
        if '>' in R: law('>', 'mirrors <', lambda i, j: eqv(v('>', i, j), v('<', j, i)))
        if '<=' in R: law('<=', 'is not >', lambda i, j: None if None in (v('<=', i, j), v('<', j, i)) else bool(v('<=', i, j)) != bool(v('<', j, i)))
        if '>=' in R: law('>=', 'is not <', lambda i, j: None if None in (v('>=', i, j), v('<', i, j)) else bool(v('>=', i, j)) != bool(v('<', i, j)))
    if 'compare_items' in R:
        ci = lambda i, j: v('compare_items', i, j)
        law('compare_items', 'antisymmetry', lambda i, j: None if None in (ci(i, j), ci(j, i)) else ci(i, j) == -ci(j, i))
        law('compare_items', 'identical copies compare as equal', lambda i, j: ci(i, i) == 0)
        law('compare_items', 'different sequences are told apart', lambda i, j: ci(i, j) is None or (ci(i, j) == 0) == (objs[i][1].get('m_Items') == objs[j][1].get('m_Items')))
    # identity attributes
    for f in ident:
        have = [i for i in range(n) if f in objs[i][1]]
        if not have: continue
        for op in ([EQ] if EQ else []) + less[:1]:
            done = True; seen = 0
            for i in have:
                for j in have:
                    if i == j or objs[i][0] != objs[j][0]: continue
                    d = [x for x in objs[i][1] if objs[i][1][x] != objs[j][1].get(x)]
                    if d != [f]: continue
                    if trimmed(objs[i][1][f]) == trimmed(objs[j][1][f]): continue
                    seen += 1
                    a, b = v(op, i, j), v(op, j, i)
                    if a is None or b is None: done = None; continue
                    if a if op in ('==', '==p') else (not a and not b): done = False
                    if done is False:
                        ctx.bad('%s:%s:ignores:%s' % (cls, op, f), '%s does not tell apart a=%s b=%s' % (P.where(fns[op]), show(objs[i]), show(objs[j]))); break
                if done is False: break
            if done and seen: ctx.ok('%s::%s tells apart objects differing only in %s (%d pairs)' % (cls, op, f, seen))
            elif done is None: ctx.unknown('%s %s ignores %s?' % (cls, op, f))
    # bit sets with spare capacity are the same set
    if any(x[0] == 'arr' for o in objs for x in o[1].values()) and EQ:
        law(EQ, 'spare capacity is not part of the value', lambda i, j: eqv(v(EQ, i, j), all(trimmed(objs[i][1][f]) == trimmed(objs[j][1][f]) for f in objs[i][1])))
    return n

def trimmed(x):
    if x[0] != 'arr': return x
    a = list(x[1])
    while a and a[-1] == 0: a.pop()
    return ('arr', tuple(a))

# ---- comparators that are not the operators of a class: functors, pointer comparisons, arguments of library sorts and searches
SORTS = ('sort', 'stable_sort', 'partial_sort')
SEARCHES = ('lower_bound', 'upper_bound', 'equal_range', 'binary_search')

def comparators(P):
    """{fn id: roles} of every comparison function of two operands of one type"""
    out = {}
    def ok(f):
        ps = f['params']
        return len(ps) == 2 and f['rt']['t'] == 'bool' and ps[0]['ti']['t'] == ps[1]['ti']['t'] and not ps[0]['ti'].get('sc') and f.get('body') is not None
    for f in P.fns.values():
        if not P.rel(f['file']).startswith(('TameParse/', 'parsetool/', 'bootstrap/')): continue
        if ok(f) and (f.get('op') == '()' or (f.get('static') and f['sn'].startswith('compare'))): out.setdefault(f['id'], set())
        for n in walk(f['body']):
            if n['k'] == 'call' and n.get('mn') in SORTS + SEARCHES and not n.get('obj'):
                for a in n['args']:
                    for x in walk(a):
                        if x['k'] == 'fnref' and x['fn'] in P.fns and ok(P.fns[x['fn']]):
                            out.setdefault(x['fn'], set()).add('sort' if n['mn'] in SORTS else 'search')
    return out

def operand_class(P, I, f):
    ti = f['params'][0]['ti']
    return I.strip(ti.get('pointee', '') or ti['t']).rstrip(' *&').strip()

def run_comparators(P, ctx, done, cap):
    byclass = {}
    for fid, roles in sorted(comparators(P).items()):
        f = P.fns[fid]
        cls = f.get('cls') or ''
        if f['sn'] == 'compare' and cls in done: continue
        I = OrdInterp(P, cls)
        t = operand_class(P, I, f)
        used = fields_used(P, [f])
        own = [x for x in P.recs.get(t, {'fields': []})['fields'] if (t, x['n']) in used]
        has_ops = t in P.recs and any(m.get('op') in OPS for m in P.recs[t]['methods'])
        flags = ''
        if t in P.recs and own and not I.atomic(t) and not has_ops:
            objs = universe(P, I, t, {(t, x['n']) for x in own}, [], cap)
        elif t in P.recs and not I.atomic(t) and not has_ops and f['params'][0]['ti'].get('ptr'):
            objs, flags = [(t, {})] * 4, 'identity'
        elif t.startswith('util::container<'):
            I = OrdInterp(P, t)
            vals = [('tok', 'item', k) for k in (1, 2, 3)] + ([NULL] if cls.startswith('util::container<') else [])
            objs = [(t, {'m_Ref': ('pref', v)}) for v in vals]
        else: objs = [('TOK', ('tok', 'operand', k), {}) for k in (1, 2, 3)]
        M, dom = relation(P, I, ctx, f, objs, flags == 'identity')
        L = Laws(P, ctx, f['name'])
        L.strict_weak_order('less', f, M, dom)
        ctx.count('comparators')
        byclass.setdefault((t, tuple(sorted(x['n'] for x in own)) and True), []).append((f, roles, M, objs))
    for (t, _), fs in byclass.items():
        for f, r, M, objs in fs:
            if 'sort' not in r: continue
            for g, r2, M2, objs2 in fs:
                if 'search' not in r2 or f is g: continue
                # compare over the attributes of both
                I = OrdInterp(P, '')
                us = fields_used(P, [f, g])
                ob = universe(P, I, t, {(t, x['n']) for x in P.recs[t]['fields'] if (t, x['n']) in us}, [], cap)
                A, _d = relation(P, I, ctx, f, ob); B, _d = relation(P, I, ctx, g, ob)
                Laws(P, ctx, f['name']).law('sort', f, 'is at least as fine as the order used to search (%s)' % g['sn'],
                    lambda i, j: None if None in (A[i, j], B[i, j]) else i == j or not B[i, j] or bool(A[i, j]), ob)

def run_containers(P, ctx):
    """the reference counted containers order by what they refer to; a container of nothing comes first"""
    n = 0
    for c in sorted(P.recs):
        if not c.startswith('util::container<') or c.count('::reference') or c.endswith('reference'): continue
        fns = comparison_fns(P, c)
        if '<' not in fns: continue
        I = OrdInterp(P, c)
        objs = [(c, {'m_Ref': ('pref', v)}) for v in (NULL, ('tok', 'item', 1), ('tok', 'item', 2), ('tok', 'item', 3))]
        check_class(P, ctx, c, 'total', ['m_Ref'], 10, objs, I)
        n += 1
    ctx.count('container_types', n)
    return n

def run(P, ctx):
    ctx.explanation = 'Comparison functions of every ordered class evaluated in an ordering domain (attributes known only by relative order) for all pairs of a finite abstract universe; laws checked on the resulting relations.'
    ctx.assumptions = ['attributes that are objects of another class are compared lawfully by that class (checked separately)', 'container elements beyond the second are treated like the first two']
    cap = 48 if ctx.tier == 'thorough' else 27
    classes = dict(CLASSES)
    # anything else in the library with a comparison operator
    for c in sorted(P.recs):
        r = P.recs[c]
        if not P.rel(r['file']).startswith('TameParse/'): continue
        if c in classes or c.startswith('util::container<') or 'const_iterator' in c: continue
        if any(P.derives(c, b) for b in ('contextfree::item',)): continue
        if any(m.get('op') in OPS for m in r['methods']): classes[c] = ('', [])
    done = 0
    for c, (fl, ident) in sorted(classes.items()):
        if c not in P.recs: 
            ctx.notes.append('class %s not present' % c); continue
        n = check_class(P, ctx, c, fl, ident, cap)
        if n: done += 1; ctx.notes.append('%s: %d abstract objects' % (c, n))
    ctx.count('classes', done)
    run_comparators(P, ctx, classes, cap)
    k = run_containers(P, ctx)
    ctx.need(done, 12, 'classes with comparison functions')
