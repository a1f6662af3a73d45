"""C20 - asking changes nothing, and nothing is shared behind the scenes.

Effect analysis: for every function, which of the objects it was given (its object, its parameters) and which variables of static
storage duration it may change, through references, pointers, iterators and calls (engine/effects.py)."""
from effects import Effects, is_shared, is_stream, depends
from model import walk

def check(P, ctx):
    E = Effects(P).solve()
    ctx.count('functions', len(P.fns)); ctx.count('static variables', len(E.statics)); ctx.count('rounds of the fixpoint', E.rounds)
    def name(g): return g if isinstance(g, str) else '%s (in %s)' % (g[1].split('#')[0], P.fns[g[0]]['name'])
    def own(f): return not P.rel(f['file']).startswith(('/', 'Test/')) and '/Test/' not in f['file']
    promises = 0
    broken = {}
    for fid, f in sorted(P.fns.items()):
        if not own(f): continue
        todo = {}
        if f.get('const') and f.get('access') == 'public' and '::reference' not in (f.get('cls') or ''): todo['this'] = 'its object'
        if f.get('access') == 'public' or not f.get('cls'):
            for i, p in enumerate(f['params']):
                t = p['ti']['t']
                if t.startswith('const ') and (p['ti'].get('ref') or p['ti'].get('ptr')) and not is_shared(t) and not is_stream(t): todo[('p', i)] = 'its parameter %s' % p.get('n')
        promises += len(todo)
        for r in todo:
            if r not in E.mod[fid]: ctx.ok()
        for x, cs in E.body[fid]:
            ctx.count('places looked at')
            if x['k'] == 'decl':
                for v in x['v']:
                    if not v.get('static') or not v.get('init'): continue
                    ctx.count('initialisers of static variables in functions')
                    d = depends(E, fid, v['init'])
                    if d: ctx.bad(f['name'], '%s: the static variable %s keeps what the first call computes from %s; later calls get that, whatever they are given' % (P.where(f, v.get('l')), v['n'], d))
            for rs, what in E.changed(fid, x, cs):
                for r in rs:
                    if r != 'this' and r[0] == 'g':
                        if is_stream((E.statics.get(r[1]) or {}).get('ti', {}).get('t', '')): continue
                        ctx.bad(f['name'], '%s: the variable %s, shared by all users of the program, is %s' % (P.where(f, x['l']), name(r[1]), what))
                    elif r in todo: broken.setdefault(fid, []).append((todo[r], x['l'], what, [t['id'] for t in P.targets(x)] if x['k'] == 'call' else []))
        for r in E.ret[fid]:
            if r != 'this' and r[0] == 'g' and (f.get('access', 'public') == 'public'):
                t, s = f['rt']['t'], E.statics.get(r[1]) or {}
                if t.startswith('const ') or not (f['rt'].get('ref') or f['rt'].get('ptr')) or is_stream(t) or s.get('ti', {}).get('const'): continue
                ctx.bad(f['name'], '%s: hands out the variable %s, shared by all users of the program, for anyone to change' % (P.where(f), name(r[1])))
    for fid, hs in sorted(broken.items()):
        f = P.fns[fid]
        w, l, what, ts = hs[0]
        if any(t in broken for t in ts): continue              # named where it happens
        ctx.bad(f['name'], '%s: %s promises to leave %s as it is, but it is %s' % (P.where(f, l), f['name'], w, what))
    for g in E.statics: ctx.ok()
    ctx.count('promises not to change something', promises)
    ctx.need(promises, 300, 'promises not to change something')

def run(P, ctx):
    ctx.explanation = ('For every function: the objects it was given and the variables of static storage duration it may change, directly, through '
        'references, pointers and iterators, and through the functions it calls. Rule 1: a public const operation does not change its object or what is '
        'reached from it, and no public function changes what it takes by reference or pointer to const. Rule 2: no function changes a static variable '
        'or hands it out to be changed, and none initialises one from its arguments.')
    ctx.assumptions = ['an object stored somewhere and found again there is not followed (only access paths in the source)', 'attributes declared mutable, reference counts and streams are not part of what an object means',
                       'what is filled in only while it is null or empty is a cache']
    check(P, ctx)
