"""C10 - parser stacks and sessions shared by several parser states.

The copies of a parser stack share one pool of entries, which is collected, reused and grown; the states of a parser share a
session through an intrusive list.  Both are explored as transition systems: from every configuration reachable with at most
three (four) handles, each operation is evaluated abstractly (items are names), and afterwards every handle has to show exactly
the items that were pushed through it.  Objects are released exactly once, when the last handle goes, and not used afterwards."""
from absint import State, C, isC, TooComplex, NULL
from exact import ExactInterp, Problem, shape, gc
from facts import Broken
import c16

def op(P, cls, name, n, const=None):
    ms = [m for m in P.methods_of.get(cls, []) if (m['sn'] == name or m.get('op') and 'operator' + m['op'] == name) and len(m['params']) == n and m.get('body') is not None]
    if not ms: raise Broken('anchor vanished: %s::%s' % (cls, name))
    return ms[0]
def ctor(P, cls, kind, n):
    ms = [m for m in P.methods_of.get(cls, []) if m.get('kind') in kind and len(m['params']) == n and m.get('body') is not None]
    if not ms: raise Broken('anchor vanished: constructor of ' + cls)
    return ms[0]

class Stop(Exception): pass

def one(I, f, st, this, args):
    r = I.run(f, st, this, args)
    if len(r) != 1: raise TooComplex('%s: %d outcomes' % (f['name'], len(r)))
    return r[0]

def problem(I, st): 
    p = st.ghost.get('problem')
    return None if p is None else '%s, in %s line %s' % (p[1], p[2].split('::')[-1], p[4])

def stacks(P, ctx):
    cls = [c for c in P.recs if c.startswith('lr::parser_stack<int, 2') and c.endswith('>')]
    if not cls: raise Broken('anchor vanished: lr::parser_stack<int, 2>')
    cls = cls[0]
    I = ExactInterp(P)
    I.limit, I.HALT, I.STRICT = 100000, True, True
    mk, cp = ctor(P, cls, ('ctor', 'defctor'), 0), ctor(P, cls, ('copyctor',), 1)
    push, pop, at = op(P, cls, 'push', 2), op(P, cls, 'pop', 0), op(P, cls, 'operator[]', 1)
    asg = [m for m in P.methods_of[cls] if m.get('op') == '=' and m.get('body')]
    arrow = op(P, cls, 'operator->', 0)
    maxh, maxd = 3, 4
    cap = 6000 if ctx.tier == 'thorough' else 900
    r = I.run(mk, State(), I.newloc('ref'), [])
    st = r[0][0]
    h0 = I.this if False else None
    st = State(); l0 = I.newloc('ref')
    st = one(I, mk, st, l0, [])[0]
    # the bottom entry is filled in by the user
    s, v = one(I, arrow, st, l0, [])
    v = I.argval(s, v)
    if v[0] != 'ptr': raise Broken('parser_stack::operator-> not understood')
    I.write(s, ('fld', v[1], 'state'), C(2000)); I.write(s, ('fld', v[1], 'item'), C(3000))
    first = (s, ((l0, ((2000, 3000),)),))
    seen = set()
    todo = [(first, ())]
    n = trans = 0
    def check(st, handles, hist, f):
        """every handle shows what was pushed through it"""
        if problem(I, st): raise Stop('lifetime', problem(I, st))
        for l, m in handles:
            for k in range(len(m)):
                s, v = one(I, at, st.copy(), l, [C(-k)])
                if problem(I, s): raise Stop('lifetime', problem(I, s))
                loc = v[1] if v[0] in ('refto', 'rec') else None
                if loc is None: raise TooComplex('operator[]')
                a, b = I.read(s, ('fld', loc, 'state')), I.read(s, ('fld', loc, 'item'))
                if not isC(a) or not isC(b): raise TooComplex('entry value')
                if (a[1], b[1]) != m[-1 - k]: raise Stop('content', 'entry %d below the top of one of the stacks is (%d, %d) where (%d, %d) was pushed' % ((k, a[1], b[1]) + m[-1 - k]))
    names = 4000
    while todo and n < cap and not any(k.startswith('stack:') for k in ctx.violations) and ctx.counts.get('undetermined', 0) < 100:
        (st, handles), hist = todo.pop(0)
        sh = shape(I, st, [l for l, _ in handles], 2000), tuple(len(m) for _, m in handles)
        if sh in seen: continue
        seen.add(sh)
        n += 1
        ops = []
        for i in range(len(handles)):
            if len(handles[i][1]) < maxd: ops.append(('push', i))
            ops += [('pop', i), ('destroy', i)]
            if len(handles) < maxh: ops.append(('copy', i))
            ops += [('assign', i, j) for j in range(len(handles))] if asg else []
        for o in ops:
            s = st.copy()
            hs = list(handles)
            l, m = hs[o[1]]
            h2 = hist + (o,)
            f = push
            try:
                if o[0] == 'push':
                    names += 1
                    s, _ = one(I, push, s, l, [C(names), ('refto', I.temp(s, C(names + 100000)))])
                    hs[o[1]] = (l, m + ((names, names + 100000),))
                elif o[0] == 'pop':
                    f = pop
                    s, v = one(I, pop, s, l, [])
                    v = I.argval(s, v)
                    if len(m) > 1: hs[o[1]] = (l, m[:-1])
                    if not isC(v): raise TooComplex('result of pop')
                    if bool(v[1]) != (len(m) > 1): raise Stop('pop', 'pop says %s for a stack of %d items' % (bool(v[1]), len(m)))
                elif o[0] == 'copy':
                    f = cp
                    l2 = I.newloc('ref')
                    s, _ = one(I, cp, s, l2, [('refto', l)])
                    hs.append((l2, m))
                elif o[0] == 'assign':
                    f = asg[0]
                    s, _ = one(I, asg[0], s, l, [('refto', hs[o[2]][0])])
                    hs[o[1]] = (l, hs[o[2]][1])
                else:
                    f = [x for x in P.methods_of[cls] if x.get('kind') == 'dtor'][0]
                    I.steps = 0; r = I.destroy(s, l, cls)
                    if len(r) != 1: raise TooComplex('destructor')
                    s = r[0]
                    del hs[o[1]]
                    made, freed = s.ghost.get('made', ()), s.ghost.get('freed', ())
                    if hs and freed: raise Stop('early', 'the entries are released although %d stacks are left' % len(hs))
                    if not hs and set(made) - set(freed): raise Stop('leak', 'the entries are not released with the last stack')
                check(s, hs, h2, f)
            except Stop as x:
                ctx.bad('stack:' + x.args[0], '%s: %s, after %s' % (P.where(f), x.args[1], fmt(h2)))
                continue
            except Problem as x:
                ctx.bad('stack:lifetime', '%s: %s, in %s line %s, after %s' % (P.where(f), x.args[0][1], x.args[0][2].split('::')[-1], x.args[0][4], fmt(h2))); continue
            except TooComplex as x:
                ctx.unknown('stack after %s: %s' % (fmt(h2), x)); continue
            trans += 1
            if hs: todo.append(((gc(s, [l for l, _ in hs]), tuple(hs)), h2))
    ctx.count('stack_configurations', n)
    ctx.count('stack_operations', trans)
    ctx.need(trans, 500, 'operations on parser stacks')
    if not any(k.startswith('stack:') for k in ctx.violations): ctx.ok('%d configurations of up to %d parser stacks sharing their entries, %d operations' % (n, maxh, trans))

def fmt(h): return ', '.join('%s(%s)' % (o[0], ','.join(map(str, o[1:]))) for o in h)

def sessions(P, ctx):
    pcls, scls = c16.find_parser(P)
    I = ExactInterp(P)
    I.limit, I.HALT, I.STRICT = 100000, True, True
    create = c16.method(P, pcls, 'create_parser', 2)
    pc = [m for m in P.methods_of[pcls] if m.get('kind') == 'ctor' and len(m['params']) == 2 and m['params'][0]['ti'].get('ptr')][0]
    cp = ctor(P, scls, ('copyctor',), 1)
    look, nxt = c16.method(P, scls, 'look', 1), c16.method(P, scls, 'next', 0)
    acts = 'lr::simple_parser_actions'
    o = I.on_call
    def on_call(st, e, fn, obj, args):
        if e.get('cls') == acts and e['k'] == 'call' and e.get('mn') == 'read':
            I.alive(st, obj, e)
            n = st.ghost.get('reads', 0); st.ghost['reads'] = n + 1
            return [(st, ('ptr', ('O', 'token%d' % n)) if n < 2 else NULL)]
        return o(st, e, fn, obj, args)
    I.on_call = on_call
    st = State()
    pl = ('O', 'parser')
    st = I.run(pc, st, pl, [('ptr', ('O', 'tables')), C(0)])[0][0]
    al = I.newloc('new'); st.ghost[('type', al)] = 'user actions'
    st, v = one(I, create, st, pl, [('ptr', al), C(0)])
    if v[0] != 'ptr': raise Broken('parser::create_parser not understood')
    maxh = 4 if ctx.tier == 'thorough' else 3
    todo = [((st, (v[1],)), ())]
    seen = set()
    n = trans = 0
    dt = [x for x in P.methods_of[scls] if x.get('kind') == 'dtor']
    if not dt: raise Broken('anchor vanished: destructor of the parser state')
    while todo and not any(k.startswith('session:') for k in ctx.violations) and ctx.counts.get('undetermined', 0) < 200:
        (st, hs), hist = todo.pop(0)
        sh = shape(I, st, hs)
        if sh in seen: continue
        seen.add(sh); n += 1
        ops = [(k, i) for i in range(len(hs)) for k in ('copy', 'destroy', 'look', 'next')]
        if len(hs) >= maxh: ops = [x for x in ops if x[0] != 'copy']
        for o_ in ops:
            s, h2, new = st.copy(), hist + (o_,), list(hs)
            l = hs[o_[1]]
            f = dt[0]
            try:
                if o_[0] == 'copy':
                    f = cp; l2 = I.newloc('new')
                    s, _ = one(I, cp, s, l2, [('refto', l)]); new.append(l2)
                    s.ghost[('pos', l2)] = s.ghost.get(('pos', l), 0)
                    s.ghost['made'] = s.ghost.get('made', ()) + (l2,); s.ghost[('type', l2)] = scls
                elif o_[0] in ('look', 'next'):
                    if o_[0] == 'next':
                        lp = s.ghost.get(('pos', l), 0)
                        if s.ghost.get('reads', 0) <= 0 or lp >= 2: continue
                        s, _ = one(I, look, s, l, [C(0)])
                        s.ghost[('pos', l)] = lp + 1
                    f = look if o_[0] == 'look' else nxt
                    s, _ = one(I, f, s, l, [C(0)] if o_[0] == 'look' else [])
                else:
                    I.steps = 0; r = I.destroy(s, l, scls)
                    if len(r) != 1: raise TooComplex('destructor')
                    s = r[0]; I.kill(s, l, 'a parser state is used after it has been deleted'); s.ghost['freed'] = s.ghost.get('freed', ()) + (l,)
                    new.remove(l)
                if problem(I, s): raise Stop('lifetime', problem(I, s))
                freed, made = set(s.ghost.get('freed', ())), set(s.ghost.get('made', ()))
                if new and freed - set(x for x in made if s.ghost.get(('type', x)) == scls): raise Stop('early', 'something the states share is released although %d states are left' % len(new))
                if not new and (made | {al}) - freed:
                    raise Stop('leak', 'the last state leaves %s behind' % ', '.join(sorted(set(s.ghost.get(('type', x), '?').split('::')[-1] for x in (made | {al}) - freed))))
                # the states that are left still work, and moving one on reaches all of them
                for x in new:
                    ahead = s.ghost.get(('pos', x), 0) < min(s.ghost.get('reads', 0), 2)
                    y, _ = one(I, nxt if ahead else look, s.copy(), x, [] if ahead else [C(0)])
                    if problem(I, y): raise Stop('lifetime', problem(I, y))
            except Stop as x:
                ctx.bad('session:' + x.args[0], '%s: %s, after %s' % (P.where(f), x.args[1], fmt(h2))); continue
            except Problem as x:
                ctx.bad('session:lifetime', '%s: %s, in %s line %s, after %s' % (P.where(f), x.args[0][1], x.args[0][2].split('::')[-1], x.args[0][4], fmt(h2))); continue
            except TooComplex as x:
                ctx.unknown('session after %s: %s' % (fmt(h2), x)); continue
            trans += 1
            if new: todo.append(((gc(s, new + [('O', 'parser')]), tuple(new)), h2))
    ctx.count('session_configurations', n); ctx.count('session_operations', trans)
    ctx.need(trans, 30, 'operations on parser states')
    if not any(k.startswith('session:') for k in ctx.violations): ctx.ok('%d configurations of up to %d states of one session, %d operations' % (n, maxh, trans))

def run(P, ctx):
    ctx.explanation = 'abstract interpretation of the operations of parser_stack and of parser states from every configuration reachable with a few handles (fixpoint up to renaming of items and objects)'
    ctx.assumptions = ['an allocation never returns memory still in use', 'the pool of entries starts with 2 entries (template argument) so that collecting and growing happen at once']
    stacks(P, ctx)
    sessions(P, ctx)
