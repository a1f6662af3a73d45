"""Which of the objects a function is given, or can name, does it change?  Flow-insensitive, interprocedural.

Objects are named by how a function comes by them: its parameters, `this`, variables of static storage duration.  A reference, a
pointer, an iterator or a shared container stands for the objects it may lead to; what is reachable from an object counts as part
of it, as far as it is reached by an access path in the source (what is stored somewhere and found again later is not followed)."""
from model import walk

SHARED = ('util::container<', 'util::syntax_ptr<')
ACCESS = ('begin', 'end', 'rbegin', 'rend', 'find', 'at', 'front', 'back', 'data', 'lower_bound', 'upper_bound', 'equal_range', 'get', 'rdbuf', 'c_str', 'operator->', 'operator*', 'item', 'first', 'second', 'top')
STREAM = ('stream', 'basic_ios', 'ios_base')

def strip(t):
    t = t.strip()
    while t.startswith(('const ', 'volatile ')): t = t.split(' ', 1)[1]
    return t
def is_shared(t): return strip(t).startswith(SHARED)
def leads(t):
    """values of this type lead to other objects"""
    t = t.strip()
    if t.endswith(('*', '&', '* const')) or 'iterator' in t.split('<')[0] or t.endswith('iterator'): return True
    s = strip(t)
    return s.startswith(SHARED) or 'iterator' in s.split('<')[0] or '_iterator' in s or s.endswith('::reference') or s.startswith(('std::auto_ptr<', 'std::unique_ptr<', 'std::shared_ptr<', 'std::reverse_iterator', '__gnu_cxx::__normal_iterator'))
def is_stream(t): return any(x in strip(t).split('<')[0] for x in STREAM)

def flat(e):
    while e and e.get('k') == 'cast': e = e['e']
    return e
def zero(e):
    e = flat(e)
    return e and (e['k'] in ('null',) or (e['k'] in ('int', 'bool') and not e['v']))
def empties(e, pos=True):
    """expressions known to be null, false or empty when e is true (pos) or false"""
    e = flat(e)
    if not e: return
    k = e['k']
    if k == 'un' and e['op'] == '!':
        yield from empties(e['e'], not pos)
    elif k == 'bin' and e['op'] in ('==', '!='):
        if (e['op'] == '==') == pos:
            for a, b in ((e['a'], e['b']), (e['b'], e['a'])):
                if zero(b):
                    a = flat(a)
                    yield a['obj'] if a['k'] == 'call' and a.get('mn') in ('size', 'length') and 'obj' in a else a
    elif k == 'bin' and e['op'] in ('&&', '||'):
        if (e['op'] == '&&') == pos:
            yield from empties(e['a'], pos); yield from empties(e['b'], pos)
    elif k == 'call' and e.get('mn') == 'empty' and 'obj' in e:
        if pos: yield e['obj']
    elif k in ('mem', 'var', 'global'):
        if not pos: yield e
    elif k == 'call' and e.get('mn') in ('get', 'item') and 'obj' in e:
        if not pos: yield e['obj']

def leaves(s):
    if not s: return False
    if s['k'] in ('return', 'throw', 'continue', 'break'): return True
    if s['k'] == 'expr' and flat(s['e']) and flat(s['e'])['k'] == 'throw': return True
    if s['k'] == 'block': return bool(s['b']) and leaves(s['b'][-1])
    return s['k'] == 'if' and leaves(s.get('a')) and leaves(s.get('b'))

def guarded(s, conds=()):
    """(node, expressions known to be null or empty there) for the nodes of a statement"""
    if isinstance(s, list):
        for x in s: yield from guarded(x, conds)
        return
    if not isinstance(s, dict): return
    k = s.get('k')
    if k == 'block':
        cs = conds
        for x in s['b']:
            yield from guarded(x, cs)
            if x['k'] == 'if' and leaves(x.get('a')) and not x.get('b'): cs = cs + tuple(empties(x['c'], False))
        return
    if k == 'if':
        yield from guarded(s['c'], conds)
        yield from guarded(s.get('a'), conds + tuple(empties(s['c'], True)))
        yield from guarded(s.get('b'), conds + tuple(empties(s['c'], False)))
        return
    if k: yield s, conds
    for v in s.values():
        if isinstance(v, (dict, list)): yield from guarded(v, conds)

def depends(E, fid, e):
    """mentions something that differs from call to call"""
    for x in walk(e):
        if x['k'] == 'this': return 'the object it is called on'
        if x['k'] == 'var' and (fid, x['id']) not in E.statics: return x['id'].split('#')[0]
    return None

class Effects:
    def __init__(self, P):
        self.P = P
        self.mod = {f: set() for f in P.fns}      # fn -> roots
        self.ret = {f: set() for f in P.fns}
        self.alias = {f: {} for f in P.fns}
        self.sites = {}                            # (fn, root 'g') -> [(line, text)]
        self.statics = {}                          # 'g' name -> declaration
        for n, g in P.globals.items(): self.statics[n] = dict(g, q=n)
        self.mutable = {(n, f.get('n') or f.get('name')) for n, r in P.recs.items() for f in r['fields'] if f.get('mutable')}
        self.refs = {}
        self.local = {}                            # (fn, name) -> key of a static variable of the function
        for fid, f in P.fns.items():
            r = {}
            for i, p in enumerate(f['params']): r[p.get('id') or '%s#%d' % (p.get('n', ''), i)] = p['ti']
            for x in self.nodes(f):
                if x['k'] == 'decl':
                    for v in x['v']:
                        r[v['id']] = v['ti']
                        if v.get('static'): self.statics[(fid, v['id'])] = dict(v, file=f['file'], fn=fid); self.local[(fid, v['n'])] = (fid, v['id'])
            self.refs[fid] = r
        self.body = {}
        for fid, f in P.fns.items():
            b = [(x, ()) for i in f.get('inits', []) for x in walk(i['e'])]
            if f.get('body'): b += list(guarded(f['body']))
            self.body[fid] = b
        self.pidx = {fid: {p.get('id') or '%s#%d' % (p.get('n', ''), i): i for i, p in enumerate(f['params'])} for fid, f in P.fns.items()}
    def nodes(self, f):
        if f.get('body'): yield from walk(f['body'])
        for i in f.get('inits', []): yield from walk(i['e'])
    # ---- what an expression may denote
    def roots(self, fid, e):
        if not isinstance(e, dict): return set()
        k = e['k']
        if k == 'this': return {'this'}
        if k == 'global':
            l = self.local.get((fid, e['n']))
            return {('g', l or e['n'])} if l or e['n'] in self.statics else set()
        if k == 'var':
            if (fid, e['id']) in self.statics: return {('g', (fid, e['id']))}
            r = set(self.alias[fid].get(e['id'], ()))
            if e['id'] in self.pidx[fid]: r.add(('p', self.pidx[fid][e['id']]))
            return r
        if k == 'mem':
            if (e.get('cls'), e['f']) in self.mutable: return set()       # declared not to be part of what an object means
            return self.roots(fid, e['b'])
        if k in ('cast', 'un'): return self.roots(fid, e['e'])
        if k == 'index': return self.roots(fid, e['b'])
        if k == 'cond': return self.roots(fid, e['a']) | self.roots(fid, e['b'])
        if k == 'assign': return self.roots(fid, e['a'])
        if k == 'bin':
            if not leads(e.get('t', '')) or e['op'] not in ('+', '-', ','): return set()
            r = set()
            for x in (e['a'], e['b']):
                if leads(x.get('t', '')) or x.get('t', '').endswith(']'): r |= self.roots(fid, x)
            return r
        if k == 'construct':
            if leads(e.get('t', '')):
                r = set()
                for a in e['args']: r |= self.roots(fid, a)
                return r
            return set()
        if k == 'call':
            t = e.get('t', '')
            if e.get('rt') == 'val' and not leads(t): return set()
            ts = [] if is_shared(e.get('cls', '')) else self.P.targets(e)
            if ts:
                r = set()
                for f in ts: r |= self.map(fid, e, f['id'], self.ret[f['id']])
                return r
            r = self.roots(fid, e['obj']) if 'obj' in e else set()
            if 'obj' not in e or e.get('static'):
                for a in e['args']: r |= self.roots(fid, a)
            return r
        return set()
    def map(self, fid, e, callee, rs):
        out = set()
        for x in rs:
            if x == 'this': out |= self.roots(fid, e['obj']) if 'obj' in e else set()
            elif x[0] in 'pv':
                if x[1] < len(e['args']): out |= self.roots(fid, e['args'][x[1]])
            else: out.add(x)
        return out
    def rebinds(self, fid, e):
        """assigning to this changes only a variable of the function"""
        while e['k'] == 'cast': e = e['e']
        if e['k'] != 'var' or (fid, e['id']) in self.statics: return False
        ti = self.refs[fid].get(e['id'])
        return ti is not None and not ti.get('ref') and not ti['t'].rstrip().endswith('&')
    def target(self, fid, e):
        """what assigning to e changes; a parameter that is a reference to an iterator or pointer: that variable, not what it leads to"""
        x = e
        while x['k'] == 'cast': x = x['e']
        if x['k'] == 'var' and x['id'] in self.pidx[fid]:
            t = self.refs[fid][x['id']]['t'].rstrip()
            if t.endswith('&') and leads(t[:-1].rstrip()): return {('v', self.pidx[fid][x['id']])}
        return self.lroots(fid, e)
    # ---- what a node changes
    def changes(self, fid, x):
        """-> [(roots, what)]"""
        k = x['k']
        if k == 'assign':
            return [] if self.rebinds(fid, x['a']) else [(self.target(fid, x['a']), 'assigned')]
        if k == 'un' and x['op'] in ('pre++', 'pre--', 'post++', 'post--'):
            return [] if self.rebinds(fid, x['e']) else [(self.target(fid, x['e']), 'changed')]
        if k == 'delete': return [(self.roots(fid, x['e']), 'deleted')]
        if k == 'new' and 'init' in x: return []
        if k in ('call', 'construct'):
            out = []
            cls = x.get('cls', '') if k == 'call' else x.get('t', '')
            ts = [] if is_shared(cls) else self.P.targets(x) if k == 'call' else [self.P.fns[x['fn']]] if x.get('fn') in self.P.fns else []
            if ts:
                for f in ts:
                    m = self.mod[f['id']]
                    if k == 'construct': m = m - {'this'}
                    if 'this' in m and k == 'call' and 'obj' in x and self.rebinds(fid, x['obj']) and not x.get('arrow'): m = m - {'this'}
                    for r in m:
                        if r != 'this' and r[0] == 'g': continue        # reported where it happens
                        a = x.get('obj') if r == 'this' else x['args'][r[1]] if r[1] < len(x['args']) else None
                        if a is None: continue
                        if r != 'this' and f['params'][r[1]]['ti'].get('rec') and not f['params'][r[1]]['ti'].get('ref') and not leads(f['params'][r[1]]['ti']['t']): continue
                        if r[0] == 'v':
                            if not self.rebinds(fid, a): out.append((self.target(fid, a), 'changed by ' + f['name']))
                            continue
                        out.append((self.lroots(fid, a), 'changed by ' + f['name']))
                return out
            if k == 'call' and 'obj' in x and not x.get('static'):
                n = x.get('mn') or ''
                ct = x.get('cls', '')
                if not x.get('cm') and not is_stream(ct) and not (self.rebinds(fid, x['obj']) and not x.get('arrow')):
                    mapidx = n == 'operator[]' and strip(ct).startswith(('std::map<', 'std::unordered_map<'))
                    if not (n in ACCESS or (n == 'operator[]' and not mapidx)): out.append((self.target(fid, x['obj']) if leads(ct) else self.lroots(fid, x['obj']), 'changed by ' + n))
            for a, p in zip(x['args'], x.get('ps', [])):
                if a['k'] == 'cast' and a.get('ck') in ('IntegralCast', 'IntegralToBoolean', 'FloatingToIntegral', 'IntegralToFloating'): continue     # a temporary
                if a['k'] == 'construct' or (a['k'] == 'call' and a.get('rt') == 'val'): continue                  # a temporary
                if p == 'ref' and not is_stream(a.get('t', '')) and not self.rebinds(fid, a):
                    if k == 'construct' and leads(cls): continue
                    if k == 'call' and x.get('name', '').split('<')[0] in ('std::min', 'std::max', 'std::begin', 'std::end', 'std::forward', 'std::move'): continue
                    out.append((self.lroots(fid, a), 'changed by ' + (x.get('mn') or x.get('name') or 'a constructor')))
            if k == 'call' and 'obj' not in x and x.get('name', '').split('<')[0] in ('memcpy', 'memmove', 'memset', 'std::memcpy', 'std::memset', 'std::memmove', 'strcpy', 'sprintf', 'snprintf', 'std::sort', 'std::fill', 'std::copy', 'std::stable_sort', 'std::reverse', 'std::swap'):
                n = x['name'].split('<')[0]
                a = x['args'][2:3] if n == 'std::copy' else x['args'][:2] if n.startswith('std::') and 'mem' not in n else x['args'][:1]
                for y in a:
                    if n == 'std::swap' and self.rebinds(fid, y): continue
                    out.append((self.roots(fid, y), 'changed by ' + n))
            return out
        return []
    def lroots(self, fid, e):
        while e['k'] == 'cast': e = e['e']
        return self.roots(fid, e)
    def changed(self, fid, x, conds):
        """changes, without filling in what is missing on first use"""
        out = self.changes(fid, x)
        if not conds or not out: return out
        lazy = set()
        for c in conds: lazy |= self.roots(fid, c)
        drop = set()
        for r in lazy:
            if r == 'this': drop.add(r)
            elif r[0] == 'g' and not any(depends(self, fid, a) for a in list(x.get('args', [])) + ([x['b']] if x['k'] == 'assign' else [])): drop.add(r)
        return [(rs - drop, w) for rs, w in out]
    # ---- fixpoint
    def solve(self):
        P = self.P
        order = list(P.fns.items())
        nodes = {fid: [x for x in self.body[fid] if x[0]['k'] in ('decl', 'assign', 'un', 'delete', 'call', 'construct', 'return', 'for')] for fid, f in order}
        callers = {}
        for fid, ns in nodes.items():
            for x, cs in ns:
                if x['k'] == 'call':
                    for t in P.targets(x): callers.setdefault(t['id'], set()).add(fid)
                elif x['k'] == 'construct' and x.get('fn') in P.fns: callers.setdefault(x['fn'], set()).add(fid)
        todo = [fid for fid, f in order]
        inq = set(todo)
        self.rounds = 0
        while todo:
            fid = todo.pop(); inq.discard(fid); self.rounds += 1
            before = (len(self.mod[fid]), len(self.ret[fid]))
            al = self.alias[fid]
            f = P.fns[fid]
            while True:
                n = sum(len(v) for v in al.values())
                for x, cs in nodes[fid]:
                    if x['k'] == 'decl':
                        for v in x['v']:
                            if v.get('static') or not v.get('init'): continue
                            if leads(v['ti']['t']) or v['ti'].get('ref') or v['ti'].get('ptr'): al.setdefault(v['id'], set()).update(self.roots(fid, v['init']))
                    elif x['k'] == 'assign' and x['op'] == '=' and self.rebinds(fid, x['a']):
                        a = x['a']
                        while a['k'] == 'cast': a = a['e']
                        if leads(self.refs[fid][a['id']]['t']): al.setdefault(a['id'], set()).update(self.roots(fid, x['b']))
                    elif x['k'] == 'call' and x.get('mn') == 'operator=' and 'obj' in x and self.rebinds(fid, x['obj']) and x['args']:
                        a = x['obj']
                        while a['k'] == 'cast': a = a['e']
                        if leads(self.refs[fid][a['id']]['t']): al.setdefault(a['id'], set()).update(self.roots(fid, x['args'][0]))
                if sum(len(v) for v in al.values()) == n: break
            for x, cs in nodes[fid]:
                if x['k'] == 'return':
                    if x.get('e') and (f['rt'].get('ref') or leads(f['rt'].get('t', '*'))): self.ret[fid] |= self.roots(fid, x['e'])
                    continue
                for rs, what in self.changed(fid, x, cs): self.mod[fid] |= rs
            if (len(self.mod[fid]), len(self.ret[fid])) != before:
                for c in callers.get(fid, ()):
                    if c not in inq: inq.add(c); todo.append(c)
        return self
