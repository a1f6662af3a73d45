"""Program model over the extracted facts: classes, functions, overrides, call graph, write effects."""
from facts import Broken

def walk(n):
    """All nodes (dicts with a kind) of a subtree, pre-order."""
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)

STD_PREFIX = ('std::', '__gnu_cxx::', 'boost::')

class Program:
    def __init__(self, facts):
        self.f = facts
        self.fns = facts['functions']
        self.recs = facts['records']
        self.enums = facts['enums']
        self.globals = {k: v for k, v in facts['globals'].items() if 'data' not in v}
        self.arrays = {k: v for k, v in facts['globals'].items() if 'data' in v}
        self.overriders = {}
        for r in self.recs.values():
            for m in r['methods']:
                for o in m['ov']:
                    self.overriders.setdefault(o, set()).add(m['id'])
        self.subs = {}
        for r in self.recs.values():
            for b in r['bases']:
                self.subs.setdefault(b, set()).add(r['name'])
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f['name'], []).append(f)
        self.methods_of = {}
        for f in self.fns.values():
            if f.get('cls'):
                self.methods_of.setdefault(f['cls'], []).append(f)
        self._mods = None

    def rel(self, path):
        import facts as fa
        return path[len(fa.REPO) + 1:] if path.startswith(fa.REPO + '/') else path

    def where(self, fn, line=None):
        return '%s:%d (%s)' % (self.rel(fn['file']), line if line is not None else fn['line'], fn['name'])

    def is_repo_class(self, t):
        return t in self.recs

    def all_fields(self, cls, seen=None):
        """(owner class, field) for the class and its repo bases."""
        out = []
        r = self.recs.get(cls)
        if not r:
            return out
        for b in r['bases']:
            out += self.all_fields(b)
        for f in r['fields']:
            out.append((cls, f))
        return out

    def bases_of(self, cls):
        out = []
        r = self.recs.get(cls)
        if r:
            for b in r['bases']:
                out.append(b)
                out += self.bases_of(b)
        return out

    def derives(self, cls, base):
        return cls == base or base in self.bases_of(cls)

    def subclasses(self, cls):
        out, todo = set(), [cls]
        while todo:
            c = todo.pop()
            for s in self.subs.get(c, ()):
                if s not in out:
                    out.add(s); todo.append(s)
        return out

    def find(self, name, cls=None, need=True, file=None):
        r = [f for f in self.by_name.get(name, []) if (cls is None or f.get('cls') == cls) and (file is None or f['file'].endswith(file))]
        if not r and need:
            raise Broken('anchor vanished: no function named %s' % name)
        return r

    def all_overriders(self, fid):
        out, todo = set(), [fid]
        while todo:
            x = todo.pop()
            for o in self.overriders.get(x, ()):
                if o not in out:
                    out.add(o); todo.append(o)
        return out

    def targets(self, call):
        """Repo functions a call may reach."""
        fid = call.get('fn')
        if not fid:
            return []
        ids = [fid]
        if call.get('virt'):
            ids += sorted(self.all_overriders(fid))
        return [self.fns[i] for i in ids if i in self.fns]

    # -- transitive write effects: set of field names a function may assign (any object), None entry = unknown
    def mods(self, fid):
        if self._mods is None:
            self._compute_mods()
        return self._mods.get(fid, frozenset())

    def _compute_mods(self):
        direct, calls = {}, {}
        for fid, f in self.fns.items():
            d, c = set(), set()
            nodes = list(walk(f['body']))
            for i in f.get('inits', []):
                nodes += list(walk(i['e']))
            for n in nodes:
                k = n['k']
                if k == 'assign':
                    d |= lfields(n['a'])
                elif k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
                    d |= lfields(n['e'])
                elif k == 'call':
                    if 'obj' in n and not n.get('cm') and not n.get('static'):
                        d |= lfields(n['obj'])
                    for a, p in zip(n['args'], n.get('ps', [])):
                        if p == 'ref':
                            d |= lfields(a)
                    for t in self.targets(n):
                        c.add(t['id'])
                elif k == 'construct':
                    for a, p in zip(n['args'], n.get('ps', [])):
                        if p == 'ref':
                            d |= lfields(a)
                    if n.get('fn') in self.fns:
                        c.add(n['fn'])
                elif k == 'delete':
                    t = n['e'].get('t', '')
                    r = self.recs.get(t.rstrip(' *'))
                    if r:
                        for m in r['methods']:
                            if m['kind'] == 'dtor':
                                c.add(m['id'])
                                c |= self.all_overriders(m['id'])
            direct[fid], calls[fid] = d, c
        changed = True
        while changed:
            changed = False
            for fid in direct:
                for c in calls[fid]:
                    x = direct.get(c)
                    if x and not x <= direct[fid]:
                        direct[fid] |= x
                        changed = True
        self._mods = {k: frozenset(v) for k, v in direct.items()}

def lfields(e):
    """Field names possibly written when e is used as a mutable lvalue: the outermost member on the access path."""
    if not isinstance(e, dict):
        return set()
    k = e['k']
    if k == 'mem':
        return {e['f']} | (lfields(e['b']) if not e.get('arrow') else set())
    if k in ('cast', 'un'):
        return lfields(e['e'])
    if k == 'index':
        return lfields(e['b'])
    if k == 'call':
        s = set()
        if 'obj' in e:
            s |= lfields(e['obj'])
        return s
    if k == 'cond':
        return lfields(e['a']) | lfields(e['b'])
    return set()
