"""C09 - what containers, shared pointers and lexers own is released exactly once, with its last user.

Histories of operations on containers and shared pointers are explored as a transition system, up to renaming: from every
configuration of at most three handles (and what the objects themselves hold) each operation is evaluated, and afterwards each
handle has to show the object it was given, exactly the objects that are not in use any more have to be released, and nothing
that was released may be used.  The life of a lexer, its streams and its tables is evaluated the same way."""
from absint import State, C, isC, TooComplex, NULL
from exact import ExactInterp, Problem, shape, gc
from facts import Broken
from model import walk
from drive import Drive, Undecided, Problem as Problem2
import re
import c04, c06
from c10 import op, ctor, one, problem, Stop, fmt

T, N, LEAF = 'verif_thing', 'verif_node', 'verif_leaf'

class Shared(ExactInterp):
    ATOMIC = ()                # containers are classes like any other here

class Box:
    """the handles of one kind; groups say which handles share"""
    def __init__(self, P, ctx, cls, made):
        self.P, self.ctx, self.cls, self.made_cls = P, ctx, cls, made
        self.I = Shared(P)
        self.I.limit, self.I.HALT, self.I.STRICT = 100000, True, True
        self.dtor = [x for x in P.methods_of[cls] if x.get('kind') == 'dtor']
        self.copyctor = ctor(P, cls, ('copyctor',), 1)
        self.asg = [m for m in P.methods_of[cls] if m.get('op') == '=' and m.get('body') is not None]
        self.item = [m for m in P.methods_of[cls] if m['sn'] == 'item' and not m['params'] and m.get('body') is not None]
        if not (self.dtor and self.asg and self.item): raise Broken('anchor vanished: operations of ' + cls)
    def by_param(self, test, n):
        ms = [m for m in self.P.methods_of[self.cls] if m.get('kind') in ('ctor', 'defctor') and len(m['params']) == n and m.get('body') is not None and (not n or test(m['params'][0]['ti']))]
        return ms[0] if ms else None
    def content(self, st, l):
        s, v = one(self.I, self.item[0], st.copy(), l, [])
        v = self.I.argval(s, v)
        if problem(self.I, s): raise Stop('lifetime', problem(self.I, s))
        if v == NULL: return None
        if v[0] != 'ptr': raise TooComplex('content of a handle %r' % (v,))
        return v[1]
    def new_object(self, st, name):
        I = self.I
        l = I.newloc('new')
        c = [m for m in self.P.methods_of[self.made_cls] if m.get('kind') in ('ctor', 'defctor') and not m['params']]
        if not c: raise Broken('anchor vanished: constructor of ' + self.made_cls)
        st.ghost[('type', l)] = self.made_cls
        st = one(I, c[0], st, l, [])[0]
        I.write(st, ('fld', l, 'name'), C(name))
        st.ghost['made'] = st.ghost.get('made', ()) + (l,)
        return st, l

# configuration: (state, handles ((location, group), ..), groups {group: [object, owned, group of its inner handle]})
def explore(P, ctx, box, ways, key, cap):
    I = box.I
    maxh = 3
    first = (State(), (), {})
    todo, seen = [(first, ())], set()
    n = trans = 0
    fresh = [0]
    def group(gs, objct, owned, inner):
        fresh[0] += 1
        gs[fresh[0]] = [objct, owned, inner]
        return fresh[0]
    def live(hs, gs):
        use, todo = set(), [g for _, g in hs] + [x[2] for x in gs.values() if x[0] is not None and not x[1]]
        while todo:
            g = todo.pop()
            if g is None or g in use: continue
            use.add(g)
            if gs[g][0] is not None: todo.append(gs[g][2])
        return use
    def inner_of(gs, objct):
        for g in gs.values():
            if g[0] == objct: return g
        return None
    def check(st, hs, gs):
        use = live(hs, gs)
        freed, made = set(st.ghost.get('freed', ())), set(st.ghost.get('made', ()))
        objs = {g[0]: (k, g[1]) for k, g in gs.items() if g[0] is not None}
        kept = {gs[k][0] for k in use if gs[k][0] is not None}
        for o, (k, owned) in sorted(objs.items(), key=lambda x: x[1][0]):
            if o in freed and not owned: raise Stop('borrowed', 'an object that belongs to someone else is deleted')
            if o in freed and o in kept: raise Stop('early', 'an object is deleted while it is still in use')
            if o not in freed and owned and o not in kept: raise Stop('leak', 'an object is not deleted although nothing uses it any more')
        if not hs and not any(not x[1] for x in gs.values() if x[0] is not None):
            left = made - freed - set(objs)
            if left: raise Stop('leak', '%d of the allocations made are left behind when the last handle is gone' % len(left))
        handles = list(hs) + [(('fld', gs[k][0], 'inner'), gs[k][2]) for k in sorted(use) if gs[k][0] is not None]
        for l, g in handles:
            o = box.content(st, l)
            if o != gs[g][0]: raise Stop('content', 'a handle shows %s instead of the object it was given' % ('nothing' if o is None else 'another object' if gs[g][0] is not None else 'an object'))
    while todo and n < cap and not any(k.startswith(key) for k in ctx.violations) and ctx.counts.get('undetermined', 0) < 50:
        (st, hs, gs), hist = todo.pop(0)
        use = live(hs, gs)
        sh = (shape(I, st, [l for l, _ in hs] + sorted({g[0] for g in gs.values() if g[0] is not None and not g[1]}), 2000), tuple((gs[g][0] is None, gs[g][1]) for _, g in hs))
        if sh in seen: continue
        seen.add(sh); n += 1
        ops = []
        if len(hs) < maxh:
            if len(use) < 6: ops += [(w,) for w in ways]
            ops += [(w, i) for w in box.from_item for i in range(len(hs)) if gs[hs[i][1]][0] is not None and len(use) < 6]
            ops += [('copy', i) for i in range(len(hs))]
        for i in range(len(hs)):
            ops += [('assign', i, j) for j in range(len(hs))]
            ops.append(('destroy', i))
            if gs[hs[i][1]][0] is not None:
                ops.append(('take inner', i))
                def below(g, seen=()):
                    return set() if g is None or g in seen else {g} | (below(gs[g][2], seen + (g,)) if gs[g][0] is not None else set())
                ops += [('set inner', i, j) for j in range(len(hs)) if hs[i][1] not in below(hs[j][1])]
            if box.casts and len(hs) <= maxh: ops.append(('cast', i))
        for o in ops:
            s, h2, nh, ng = st.copy(), hist + (o,), list(hs), {k: list(v) for k, v in gs.items()}
            f = box.asg[0]
            try:
                if o[0] in ways:
                    l = I.newloc('ref')
                    s, g, f = ways[o[0]](s, l, ng, group)
                    nh.append((l, g))
                elif o[0] in box.from_item:
                    l = I.newloc('ref')
                    s, g, f = box.from_item[o[0]](s, l, nh[o[1]][0], ng, group, ng[nh[o[1]][1]])
                    nh.append((l, g))
                elif o[0] == 'copy':
                    f = box.copyctor; l = I.newloc('ref')
                    s, _ = one(I, f, s, l, [('refto', hs[o[1]][0])])
                    nh.append((l, hs[o[1]][1]))
                elif o[0] == 'assign':
                    s, _ = one(I, f, s, hs[o[1]][0], [('refto', hs[o[2]][0])])
                    nh[o[1]] = (hs[o[1]][0], hs[o[2]][1])
                elif o[0] == 'take inner':
                    g = hs[o[1]][1]
                    s, _ = one(I, f, s, hs[o[1]][0], [('refto', ('fld', gs[g][0], 'inner'))])
                    nh[o[1]] = (hs[o[1]][0], gs[g][2])
                elif o[0] == 'set inner':
                    g = hs[o[1]][1]
                    s, _ = one(I, f, s, ('fld', gs[g][0], 'inner'), [('refto', hs[o[2]][0])])
                    for x in ng.values():
                        if x[0] == gs[g][0]: x[2] = hs[o[2]][1]
                elif o[0] == 'cast':
                    f, s = box.cast(s, hs[o[1]][0])
                else:
                    f = box.dtor[0]
                    I.steps = 0; r = I.destroy(s, hs[o[1]][0], box.cls)
                    if len(r) != 1: raise TooComplex('destructor')
                    s = r[0]
                    del nh[o[1]]
                if problem(I, s): raise Stop('lifetime', problem(I, s))
                check(s, nh, ng)
            except Stop as x:
                ctx.bad(key + x.args[0], '%s: %s, after %s' % (P.where(f), x.args[1], fmt(h2))); continue
            except Problem as x:
                ctx.bad(key + 'lifetime', '%s: %s, in %s line %s, after %s' % (P.where(f), x.args[0][1], x.args[0][2].split('::')[-1], x.args[0][4], fmt(h2))); continue
            except TooComplex as x:
                ctx.unknown('%s after %s: %s' % (box.cls, fmt(h2), x)); continue
            trans += 1
            use2 = live(nh, ng)
            ng = {k: v for k, v in ng.items() if k in use2 or v[0] is not None and not v[1]}
            if nh: todo.append(((gc(s, [l for l, _ in nh] + [v[0] for v in ng.values() if v[0] is not None]), tuple(nh), ng), h2))
    ctx.count('configurations', n); ctx.count('operations', trans)
    return n, trans

def containers(P, ctx):
    cls = [c for c in P.recs if c.startswith('util::container<' + T)]
    if not cls: raise Broken('anchor vanished: util::container<%s>' % T)
    b = Box(P, ctx, cls[0], T)
    I = b.I
    b.casts = False
    ptr = lambda ti: ti.get('ptr') and not ti.get('t', '').strip().startswith('const')
    cptr = lambda ti: ti.get('ptr') and ti.get('t', '').strip().startswith('const')
    obj = lambda ti: not ti.get('ptr') and T in ti.get('t', '') and 'container' not in ti.get('t', '')
    c_def, c_ptr, c_cptr, c_obj, c_own = b.by_param(None, 0), b.by_param(ptr, 1), b.by_param(cptr, 1), b.by_param(obj, 1), b.by_param(ptr, 2)
    for x, w in ((c_def, '()'), (c_ptr, '(pointer)'), (c_cptr, '(constant pointer)'), (c_obj, '(object)'), (c_own, '(pointer, bool)')):
        if x is None: raise Broken('anchor vanished: container' + w)
    names = [2000]
    def inner(s, l, gs, group):
        """the group of the handle inside a new object"""
        o = b.content(s, ('fld', l, 'inner'))
        if o is None: return group(gs, None, True, None)
        raise TooComplex('inner handle of a new object')
    def taken(s, l, gs, group, inner_group=None):
        o = b.content(s, l)
        if o is None: raise Stop('content', 'the container shows nothing instead of a new object')
        return group(gs, o, True, inner(s, o, gs, group) if inner_group is None else inner_group)
    def w_def(s, l, gs, group):
        s, _ = one(I, c_def, s, l, [])
        return s, taken(s, l, gs, group), c_def
    def w_own(s, l, gs, group):
        names[0] += 1
        s, o = b.new_object(s, names[0])
        s, _ = one(I, c_own, s, l, [('ptr', o), C(1)])
        return s, group(gs, o, True, inner(s, o, gs, group)), c_own
    def w_borrow(f, extra):
        def w(s, l, gs, group):
            names[0] += 1
            s, o = b.new_object(s, names[0])
            s, _ = one(I, f, s, l, [('ptr', o)] + extra)
            return s, group(gs, o, False, inner(s, o, gs, group)), f
        return w
    def w_null(f, extra=[]):
        def w(s, l, gs, group):
            s, _ = one(I, f, s, l, [NULL] + extra)
            return s, group(gs, None, True, None), f
        return w
    def clone(f, kind):
        def w(s, l, src, gs, group, g):
            s, _ = one(I, f, s, l, [(kind, g[0])])
            o = b.content(s, l)
            if o is None or o == g[0]: raise Stop('content', 'the container %s the object it should clone' % ('shares' if o else 'does not show'))
            if I.read(s, ('fld', o, 'name')) != I.read(s, ('fld', g[0], 'name')): raise Stop('content', 'the container does not show a clone of the object')
            return s, group(gs, o, True, g[2]), f
        return w
    ways = {'default': w_def, 'own': w_own, 'borrow': w_borrow(c_ptr, []), 'borrow, false': w_borrow(c_own, [C(0)]), 'null': w_null(c_ptr), 'constant null': w_null(c_cptr), 'own null': w_null(c_own, [C(1)])}
    b.from_item = {'clone object': clone(c_obj, 'refto'), 'clone pointer': clone(c_cptr, 'ptr')}
    n, trans = explore(P, ctx, b, ways, 'container:', 4000 if ctx.tier == 'thorough' else 1500)
    ctx.need(trans, 300, 'operations on containers')
    if not any(k.startswith('container:') for k in ctx.violations): ctx.ok('%d configurations of up to 3 containers and what their objects hold, %d operations' % (n, trans))

def pointers(P, ctx):
    cls = [c for c in P.recs if c.startswith('util::syntax_ptr<' + N)]
    if not cls: raise Broken('anchor vanished: util::syntax_ptr<%s>' % N)
    b = Box(P, ctx, cls[0], LEAF)
    I = b.I
    c_def = b.by_param(None, 0)
    c_ptr = b.by_param(lambda ti: ti.get('ptr') and N in ti.get('t', ''), 1)
    cast = [m for m in P.methods_of[cls[0]] if m['sn'] == 'cast_to' and m.get('body') is not None]
    if c_def is None or c_ptr is None or not cast: raise Broken('anchor vanished: constructors or cast_to of util::syntax_ptr')
    back = [m for c in P.recs if c.startswith('util::syntax_ptr<' + LEAF) for m in P.methods_of.get(c, []) if m['sn'] == 'cast_to' and m.get('body') is not None]
    b.casts, b.from_item = True, {}
    names = [2000]
    def w_def(s, l, gs, group):
        s, _ = one(I, c_def, s, l, [])
        return s, group(gs, None, True, None), c_def
    def w_new(s, l, gs, group):
        names[0] += 1
        s, o = b.new_object(s, names[0])
        s, _ = one(I, c_ptr, s, l, [('ptr', o)])
        return s, group(gs, o, True, group(gs, None, True, None)), c_ptr
    def do_cast(s, l):
        """cast_to another class and back: the pointers made on the way go again"""
        want = b.content(s, l)
        s, v = one(I, cast[0], s, l, [])
        if v[0] not in ('rec', 'refto'): raise TooComplex('cast_to')
        other, m = v[1], back[0] if back else None
        oc = [c for c in P.recs if c.startswith('util::syntax_ptr<' + LEAF)][0]
        it = [x for x in P.methods_of[oc] if x['sn'] == 'item' and x.get('body') is not None]
        if it:
            _, w = one(I, it[0], s.copy(), other, [])
            w = I.argval(s, w)
            if (None if w == NULL else w[1]) != want: raise Stop('content', 'a pointer that was cast does not show the object')
        r = I.destroy(s, other, oc)
        if len(r) != 1: raise TooComplex('destructor')
        return cast[0], r[0]
    b.cast = do_cast
    n, trans = explore(P, ctx, b, {'null': w_def, 'new': w_new}, 'pointer:', 4000 if ctx.tier == 'thorough' else 1500)
    ctx.need(trans, 300, 'operations on shared pointers')
    if not any(k.startswith('pointer:') for k in ctx.violations): ctx.ok('%d configurations of up to 3 shared pointers and what their objects hold, %d operations' % (n, trans))

# what a lexer's life leaves behind: classes of which objects are followed up (parts of containers are not)
LEXER = ('dfa::lexer', 'dfa::dfa_lexer', 'dfa::basic_lexer', 'dfa::ndfa', 'dfa::state', 'dfa::accept_action', 'dfa::lexeme', 'dfa::symbol_level', 'dfa::state_machine', 'verif_symbols', 'dfa_stream')
class Life(c04.AutInterp):
    def construct(self, e, st, loc):
        t = self.strip(e.get('t', ''))
        if SMART.search(t): st.ghost['local'] = t
        if e.get('k') == 'construct' and self.is_rec(t): st.ghost.setdefault(('type', loc), t)
        return super().construct(e, st, loc)
    def bases(self, cls):
        return [b for x in self.p.recs.get(cls, {}).get('bases', ()) for b in [self.strip(x['t'] if isinstance(x, dict) else x)]]
    def destroy(self, st, loc, cls):
        """the destructors of base classes are run as well"""
        cls = self.strip(cls)
        sts, todo, first = [st], [cls], True
        while todo:
            c = todo.pop(0)
            d = [m for m in self.p.methods_of.get(c, []) if m.get('kind') == 'dtor' and m.get('body') is not None]
            if d and self.can_inline(d[0], {}): sts = [y for x in sts for y, _ in self.inline(d[0], x, loc, ())]
            todo += self.bases(c)
        if cls in self.p.recs:
            for c, f in self.p.all_fields(cls):
                t = f['ti'].get('t', '')
                if SMART.search(t):
                    for x in sts: x.ghost['local'] = t
                if self.is_rec(t) and not f['ti'].get('ref') and not f['ti'].get('ptr'):
                    sts = [y for x in sts for y in self.destroy(x, ('fld', loc, f['n']), t)]
        return sts
    def decl_var(self, v, st):
        t = self.strip(v['ti'].get('t', ''))
        if not v['ti'].get('ref') and not v.get('static') and (SMART.search(v['ti'].get('t', '') + ' ' + t) or self.is_rec(t) and self.deletes(t, set())):
            st.ghost['local'] = t      # it ends with its block, which is not followed
        return super().decl_var(v, st)
    def deletes(self, t, seen):
        t = self.strip(t)
        if t in seen: return False
        seen.add(t)
        if SMART.search(t): return True
        for m in self.p.methods_of.get(t, []):
            if m.get('kind') == 'dtor' and m.get('body') is not None and any(n.get('k') in ('delete', 'call', 'mcall') for n in walk(m['body'])): return True
        return any(self.deletes(b, seen) for b in self.bases(t)) or t in self.p.recs and any(SMART.search(f['ti'].get('t', '')) for c, f in self.p.all_fields(t))
    def ev_new(self, e, st):
        out = super().ev_new(e, st)
        if e.get('array'):
            for s, v in out:
                if v[0] == 'it': s.ghost['blocks'] = s.ghost.get('blocks', ()) + ((v[1], self.strip(e['at']), self.stack[-1]['name'] if self.stack else '?', e.get('l')),)
        return out

SMART = re.compile(r'\b(unique|shared|auto|scoped|weak)_ptr\b')
STORIES = (('unused', (), 0, 'a lexer that is never compiled'), ('compiled', (0,), 3, 'a lexer that is compiled and used'), ('compiled', (1,), 3, 'a compact lexer that is compiled and used'),
           ('given', (), 4, 'a lexer that takes over an automaton and is compiled when it is first used'), ('from_dfa', (), 3, 'a lexer made from an automaton that is deleted'),
           ('wrapped', (1,), 3, 'a lexer that owns another one'), ('wrapped', (0,), 6, 'a lexer that uses another one it does not own'), ('tables', (), 6, 'lexers that use tables they do not own'), ('nothing', (1,), 3, 'a lexer given no other lexer'), ('nothing', (0,), 3, 'a lexer given no other lexer to use without owning it'),
           ('no_automaton', (), 3, 'a lexer given no automaton'), ('open_stream', (), 0, 'a stream that is deleted before it is read'))
def lexers(P, ctx):
    for name, args, want, what in STORIES:
        f = [m for m in P.methods_of.get('verif_life', []) if m['sn'] == name and m.get('body') is not None]
        if not f: raise Broken('anchor vanished: verif_life::' + name)
        d = Drive(P, Life(P))
        d.I.limit = 20000000
        try:
            r = d.run(f[0], None, tuple(C(a) for a in args))
            n = d.num(r)
        except Problem2 as x:
            ctx.bad('lexer:lifetime', '%s (%s)' % (x.text(P), what)); continue
        except (Undecided, TooComplex) as x:
            ctx.unknown('%s: %s' % (what, str(x)[:200])); continue
        st = d.st
        left = []
        for l in st.ghost.get('made', ()):
            t = st.ghost.get(('type', l), '?')
            if ('dead', l) not in st.ghost and any(t.startswith(x) or t.endswith(x) for x in LEXER): left.append(t.split('<')[0])
        for a, t, fn, line in st.ghost.get('blocks', ()):
            if ('dead', a) not in st.ghost: left.append('an array of %s made in %s' % (t.split('<')[0], fn.split('<')[0]))
        ctx.count('lexer_allocations', len(st.ghost.get('made', ())) + len(st.ghost.get('blocks', ())))
        if left and 'local' in st.ghost: ctx.unknown('%s: what a local variable of class %s releases' % (what, st.ghost['local']))
        elif left: ctx.bad('lexer:leak', '%s leaves behind %s' % (what, ', '.join(sorted(set(left)))))
        elif n != want: ctx.unknown('%s: %s tokens are read where %d are expected' % (what, n, want))
        else: ctx.ok(what)

def run(P, ctx):
    ctx.explanation = 'abstract interpretation of the operations of containers and shared pointers from every configuration reachable with a few handles (up to renaming of objects)'
    ctx.assumptions = ['an allocation never returns memory still in use', 'objects that hold each other in a circle are not considered (they are never released, as with any counted reference)']
    containers(P, ctx)
    pointers(P, ctx)
    lexers(P, ctx)
