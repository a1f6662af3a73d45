"""C16 - the parser does what its tables say.

One step of the parser (parser::state::process() and everything below it) is evaluated abstractly: the stack, the tokens and the
tables are unknown, and a table is represented only by the outcome of each lookup the parser makes (a list of kinds of actions;
states, rules and symbols are fresh names).  On every path the calls made to the user's actions, the verdict, the stack and the
next token are compared with those of the LR machine which makes the same lookups; a lookup the parser did not make has to be
irrelevant to the machine."""
import itertools
from absint import State, C, isC, TooComplex, NULL
from arrays import ArrayInterp
from facts import Broken

EOI, EOG, NOISE = 9001, 9002, 9003
KINDS = {'shift': 'act_shift', 'shiftstrong': 'act_shiftstrong', 'ignore': 'act_ignore', 'reduce': 'act_reduce', 'weak': 'act_weakreduce', 'accept': 'act_accept', 'goto': 'act_goto', 'guard': 'act_guard'}
RED = ('reduce', 'weak', 'accept')

# ---------------------------------------------------------------- what a lookup may find
def first_lists(kind):
    """lists for the lookup that starts a step; (kind, length of the rule)"""
    if kind == 'n': opts = [('reduce', 0), ('reduce', 2), ('weak', 1), ('accept', 1)]
    else: opts = [('shift', 0), ('shiftstrong', 0), ('ignore', 0), ('reduce', 0), ('reduce', 1), ('reduce', 2), ('weak', 0), ('weak', 2), ('guard', 0)]
    out = [()] + [(a,) for a in opts]
    out += [(a, b) for a in opts for b in opts if a[0] in ('weak', 'guard') or b in opts[:1]]
    second = [o for o in opts if o in (('shift', 0), ('accept', 1), ('reduce', 1), ('weak', 0), ('weak', 1), ('guard', 0))]
    out += [(a, b, c) for a in opts for b in second for c in second[:2] if a[0] in ('weak', 'guard') and b[0] in ('weak', 'guard')]
    return out
def small_lists(what):
    if what == 't': return [(), (('shift', 0),), (('reduce', 1),), (('weak', 0),), (('weak', 1), ('shift', 0)), (('guard', 0), ('shift', 0)), (('guard', 0),), (('ignore', 0),)]
    if what == 'eoi': return [(), (('accept', 1),), (('reduce', 1),), (('weak', 0),), (('weak', 1), ('accept', 1))]
    if what == 'eog': return [(('accept', 1),), (('reduce', 1),), (('weak', 0),), (('weak', 1), ('accept', 1))]
    if what == 'guard': return [(), (('shift', 0),), (('reduce', 0),), (('weak', 1),), (('weak', 0), ('shift', 0)), (('guard', 0), ('reduce', 1)), (('weak', 1), ('weak', 0))]
def tiny_lists(what):
    if what == 't': return [(), (('shift', 0),)]
    if what == 'eoi': return [(), (('accept', 1),)]
    if what == 'eog': return [(('accept', 1),), (('weak', 0),)]
    if what == 'guard': return [(), (('shift', 0),)]

class Cut(Exception): pass

class Choices:
    """Table contents decided so far, kept in the state of a path; shared by the interpreter and by the machine"""
    SMALL, LIMIT, TOKENS = 2, 6, 3
    def what(self, g, kind, sym):
        if kind == 't': return 't'
        if sym == EOI: return 'eoi'
        if sym == EOG: return 'eog'
        return 'guard' if ('guardsym', sym) in g else 'goto'
    def named(self, g, lst, what):
        """gives the actions of a list fresh states and rules"""
        g = dict(g)
        out = []
        for k, n in lst:
            x = g.get('names', 0) + 1
            g['names'] = x
            if k in RED:
                g[('rule', 500 + x)] = (2000 + x, 3000 + x, n)
                if k == 'accept': g[('guardsym', 2000 + x)] = True
                out.append((k, 500 + x))
            else: out.append((k, 100 + x))
        return g, tuple(out)
    def lookup(self, g, kind, state, sym):
        """-> [(g', (actions, noise))]"""
        key = ('list', kind, state, sym)
        if key in g: return [(g, g[key])]
        w = self.what(g, kind, sym)
        n = g.get('lookups', 0)
        if w == 'goto': lists = [(('goto', 0),)]
        elif g.get('script') and w in ('t', 'eoi'):
            l = g['script'][0]
            g2, acts = self.named(g, l, w)
            g2['script'] = g['script'][1:]
            g2[key] = (acts, 1)
            return [(g2, g2[key])]
        elif n < self.SMALL: lists = small_lists(w)
        elif n < self.LIMIT: lists = tiny_lists(w)
        else: return []
        out = []
        for i, l in enumerate(lists):
            g2, acts = self.named(g, l, w)
            if w != 'goto': g2['lookups'] = n + 1
            g2[key] = (acts, (n + i) % 2 if l else n % 2)
            out.append((g2, g2[key]))
        return out
    def flag(self, g, key, vals=(True, False)):
        if key in g: return [(g, g[key])]
        out = []
        for v in vals:
            g2 = dict(g); g2[key] = v
            out.append((g2, v))
        return out
    def eog(self, g, state):
        # a state can end a guard only if it is reached while one is evaluated
        return self.flag(g, ('eog', state), (True, False) if g.get('lookups', 0) < self.LIMIT - 1 else (True,))
    def strong(self, g, sym): return self.flag(g, ('strong', sym), (sym + 700, sym))
    def token(self, g, i):
        return self.flag(g, ('token', i), (True, False) if i < self.TOKENS and (not i or g.get(('token', i - 1), True)) else (False,))
CH = Choices()
def symbol(i): return 10 + i

class ParserInterp(ArrayInterp):
    STRICT = True
    MAXDEPTH = 24
    UNROLL = 30
    MAXSTATES = 100000
    STATIC_INIT = True
    def __init__(self, P, acts, types):
        ArrayInterp.__init__(self, P)
        self.limit = 3000000
        self.actcls, self.types = acts, types
    def can_inline(self, fn, e):
        if fn.get('body') is None or len(self.stack) >= self.MAXDEPTH: return False
        return sum(1 for s in self.stack if s['id'] == fn['id']) < 6
    def opaque(self, e, st, fn, obj, args):
        if fn is not None and fn.get('body') is not None and fn['name'].startswith('lr::parser<'): st.ghost['stuck'] = True
        return ArrayInterp.opaque(self, e, st, fn, obj, args)
    def limit_states(self, sts):
        if len(sts) > 6000: raise TooComplex('%d paths' % len(sts))
        return sts
    def cmp(self, st, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'it' and y[0] == 'it' and x[1][0] == 'A' and y[1][0] == 'END' and op in ('==', '!='):
                if x[1][1][:2] != y[1][1]: return op == '!='
                return (x[2][1] == self.length(st, x[1])) == (op == '==') if isC(x[2]) else None
        return ArrayInterp.cmp(self, st, op, a, b)
    def length(self, st, arr):
        kind, state, sym = arr[1]
        acts, noise = st.ghost[('list', kind, state, sym)]
        return len(acts) + noise
    def cell(self, st, v, e):
        if v[1][0] == 'A' and isC(v[2]):
            i, n = v[2][1], self.length(st, v[1])
            if not 0 <= i < n: st.ghost['oob'] = ('the actions of a state', i, n, self.stack[-1]['name'] if self.stack else '?', (e or {}).get('l'))
            return ('cell', v[1], i)
        return None
    def deref_at(self, st, v, e):
        if v[0] == 'it' and v[1][0] == 'END': st.ghost['oob'] = ('the actions of a state', 'past the end', '', self.stack[-1]['name'] if self.stack else '?', (e or {}).get('l'))
        return ArrayInterp.deref_at(self, st, v, e)
    # ---- the parser stack as an abstract data type (parser_stack itself is the subject of C10)
    def stk(self, st, loc): return st.store.get(('fld', loc, '#stk'), ())
    def setstk(self, st, loc, v): st.store[('fld', loc, '#stk')] = v
    def new_entry(self, st, state, item):
        l = self.newloc('entry')
        st.store[('fld', l, 'state')] = state
        st.store[('fld', l, 'item')] = item
        return l
    def top(self, st, loc, k=0):
        v = self.stk(st, loc)
        i = len(v) - 1 + k
        if i < 0: st.ghost['underflow'] = True
        return v[max(0, i)] if v else None
    def withghost(self, st, opts, f):
        out = []
        for g, v in opts:
            s = st.copy()
            s.ghost = dict(g)
            r = f(s, v)
            out.append((s, r))
        return out
    def tokptr(self, i): return ('ptr', ('O', 'token%d' % i))
    def on_call(self, st, e, fn, obj, args):
        cls, mn, op = e.get('cls') or (e.get('t', '') if e['k'] == 'construct' else ''), e.get('mn'), e.get('op')
        cls = self.strip(cls)
        if cls == 'lr::parser_tables' and e['k'] == 'call':
            v = [self.argval(st, a) for a in args]
            if not all(isC(x) for x in v):
                st.ghost['stuck'] = True
                v = [x if isC(x) else C(-5) for x in v]
            v = [x[1] for x in v]
            if mn == 'end_of_input': return [(st, C(EOI))]
            if mn == 'end_of_guard': return [(st, C(EOG))]
            if mn in ('find_terminal', 'find_nonterminal'):
                kind = 't' if mn == 'find_terminal' else 'n'
                def f(s, r):
                    acts, noise = r
                    a = ('A', (kind, v[0], v[1]))
                    for i, (k, n) in enumerate(acts + (('shift', 99),) * noise):
                        c = ('cell', a, i)
                        s.store[('fld', c, 'type')] = C(self.types[KINDS[k]])
                        s.store[('fld', c, 'nextState')] = C(n)
                        s.store[('fld', c, 'symbolId')] = C(v[1] if i < len(acts) else NOISE)
                    return ('it', a, C(0))
                return self.withghost(st, CH.lookup(st.ghost, kind, v[0], v[1]), f)
            if mn in ('last_terminal_action', 'last_nonterminal_action'): return [(st, ('it', ('END', ('t' if mn == 'last_terminal_action' else 'n', v[0])), C(0)))]
            if mn == 'rule':
                r = st.ghost.get(('rule', v[0]))
                if r is None: st.ghost['norule'] = True; r = (0, 0, 0)
                l = ('cell', ('A', ('rules', 0, 0)), v[0])
                for n, x in zip(('identifier', 'ruleId', 'length'), r): st.store[('fld', l, n)] = C(x)
                return [(st, ('refto', l))]
            if mn == 'has_end_of_guard': return self.withghost(st, CH.eog(st.ghost, v[0]), lambda s, x: C(1 if x else 0))
            if mn == 'strong_for_weak': return self.withghost(st, CH.strong(st.ghost, v[0]), lambda s, x: C(x))
            return None
        if cls.startswith('lr::parser_stack<') and '::' not in cls.split('>')[-1]:
            if e['k'] == 'construct':
                if not args: self.setstk(st, obj, (self.new_entry(st, ('uninit', obj), ('init', ('O', 'bottom'))),))
                else: self.setstk(st, obj, self.stk(st, args[0][1]))
                return [(st, C(0))]
            if mn == 'push':
                n = self.new_entry(st, self.argval(st, args[0]), self.argval(st, args[1]))
                self.setstk(st, obj, self.stk(st, obj) + (n,)); return [(st, C(0))]
            if mn == 'pop':
                v = self.stk(st, obj)
                if len(v) > 1: self.setstk(st, obj, v[:-1]); return [(st, C(1))]
                st.ghost['underflow'] = True
                return [(st, C(0))]
            if op == '->': return [(st, ('ptr', self.top(st, obj)))]
            if op == '*': return [(st, ('refto', self.top(st, obj)))]
            if op == '[]':
                i = self.argval(st, args[0])
                if isC(i): return [(st, ('refto', self.top(st, obj, i[1])))]
            return None
        if cls == self.actcls and e['k'] == 'call':
            if mn == 'read':
                n = st.ghost.get('reads', 0)
                def f(s, v):
                    s.ghost['reads'] = n + 1
                    if not v: return NULL
                    s.store[('fld', ('O', 'token%d' % n), self.matched)] = C(symbol(n))
                    return self.tokptr(n)
                return self.withghost(st, CH.token(st.ghost, n), f)
            if mn == 'shift':
                lx = self.item_of(st, self.argval(st, args[0]))
                k = st.ghost.get('items', 0); st.ghost['items'] = k + 1
                st.ghost['events'] = st.ghost.get('events', ()) + (('shift', self.lexeme(st, lx)),)
                return [(st, ('item', k))]
            if mn == 'reduce':
                vs = [self.argval(st, a) for a in args]
                items = self.listof(st, vs[2])
                k = st.ghost.get('items', 0); st.ghost['items'] = k + 1
                pos = args[3][1] if len(args) > 3 and args[3][0] in ('refto', 'rec') else None
                st.ghost['events'] = st.ghost.get('events', ()) + (('reduce', num(vs[0]), num(vs[1]), tuple(items) if items is not None else None, self.posname(st, pos)),)
                return [(st, ('item', k))]
        return None
    def posname(self, st, pos):
        if pos is None: return '?'
        for i in range(CH.TOKENS):
            if root_is(pos, ('O', 'token%d' % i)): return i
        return 'end'
    def lexeme(self, st, p):
        """(token number, symbol): a token read, or a token with the same content and another symbol"""
        if p == NULL: return (None, None)
        if p[0] != 'ptr': return ('?', '?')
        m = num(self.read(st, ('fld', p[1], self.matched)))
        for i in range(CH.TOKENS):
            t = ('O', 'token%d' % i)
            if p[1] == t: return (i, m)
            if all(self.same(st, ('fld', p[1], f), ('fld', t, f), ti) for f, ti in self.content): return (i, m)
        return ('other', m)
    def same(self, st, a, b, ti):
        t = self.strip(ti.get('t', ''))
        if self.is_rec(t): return all(self.same(st, ('fld', a, x['n']), ('fld', b, x['n']), x['ti']) for c, x in self.p.all_fields(t))
        return self.read(st, a) == self.read(st, b)

def num(v): return v[1] if isC(v) else v
def root_is(l, r):
    while l[0] in ('fld', 'el', 'mel', 'base'): l = l[1]
    return l == r

class Missing(Exception): pass
class Invalid(Exception): pass

class Machine:
    """One step of the LR machine over the table contents g; raises Missing when a lookup is not decided yet"""
    def __init__(self, g, stack):
        self.g, self.stack = g, list(stack)
        self.pos, self.events, self.items, self.fuel = 0, [], 0, 80
    def burn(self):
        self.fuel -= 1
        if self.fuel < 0: raise Invalid()
    def get(self, opts, key):
        if key not in self.g: raise Missing(opts)
        return self.g[key]
    def look(self, off):
        for i in range(off + 1):
            if not self.get(lambda g: CH.token(g, i), ('token', i)): return None
        return symbol(off)
    def acts(self, state, kind, sym): return self.get(lambda g: CH.lookup(g, kind, state, sym), ('list', kind, state, sym))[0]
    def rule(self, r): return self.g[('rule', r)]
    def goto(self, state, nt):
        for a in self.acts(state, 'n', nt):
            if a[0] == 'goto': return a[1]
        raise Invalid()
    def red(self, stack, rule):
        nt, rid, n = self.rule(rule)
        if len(stack) <= n: raise Invalid()
        s = stack[:len(stack) - n]
        return s + [self.goto(s[-1], nt)]
    def can(self, kind, sym, stack):
        while True:
            self.burn()
            again = False
            for a in self.acts(stack[-1], kind, sym):
                if a[0] in ('shift', 'shiftstrong', 'accept'): return True
                if a[0] == 'guard': continue
                if a[0] == 'weak':
                    if self.can(kind, sym, self.red(stack, a[1])): return True
                    continue
                if a[0] == 'reduce':
                    stack = self.red(stack, a[1]); again = True; break
                return False
            if not again: return False
    def can_after(self, kind, sym, act, stack):
        if act[0] in ('shift', 'shiftstrong', 'accept'): return True
        return self.can(kind, sym, self.red(stack, act[1]))
    def states(self): return [s for s, _ in self.stack]
    def item(self):
        self.items += 1
        return ('item', self.items - 1)
    def perform(self, a, la, real, gstack):
        """-> moves on?"""
        if a[0] == 'ignore': return True
        if a[0] in ('shift', 'shiftstrong'):
            if real:
                i, sym = la
                if a[0] == 'shiftstrong' and sym is not None: sym = self.get(lambda g: CH.strong(g, sym), ('strong', sym))
                self.events.append(('shift', (i, sym)))
                self.stack.append((a[1], self.item()))
            else: gstack.append(a[1])
            return True
        if a[0] in RED:
            nt, rid, n = self.rule(a[1])
            if real:
                if len(self.stack) <= n: raise Invalid()
                its = tuple(x for _, x in reversed(self.stack[len(self.stack) - n:])) if n else ()
                base = self.stack[:len(self.stack) - n]
                to = self.goto(base[-1][0], nt)
                self.events.append(('reduce', nt, rid, its, self.pos if self.look(self.pos) is not None else 'end'))
                self.stack = base + [(to, self.item())]
            else:
                gstack[:] = self.red(gstack, a[1])
            return False
        raise Invalid()
    def guard(self, init, off):
        g = [init]
        while True:
            self.burn()
            tok = self.look(off)
            kind, sym = ('t', tok) if tok is not None else ('n', EOI)
            if self.get(lambda c: CH.eog(c, g[-1]), ('eog', g[-1])):
                al = self.acts(g[-1], 'n', EOG)
                if self.can_after('n', EOG, al[0], g): kind, sym = 'n', EOG
            ok = False
            for a in self.acts(g[-1], kind, sym):
                if a[0] == 'weak' and not self.can_after(kind, sym, a, g): continue
                if a[0] == 'accept': return self.rule(a[1])[0]
                if a[0] == 'guard':
                    x = self.guard(a[1], off)
                    if x < 0: continue
                    if self.take_guard(x, None, False, g): ok = True; break
                    continue
                if self.perform(a, (None, None), False, g): off += 1
                ok = True; break
            if not ok: return -1
    def take_guard(self, gs, la, real, gstack):
        st = lambda: (self.states() if real else gstack)
        al = self.acts(st()[-1], 'n', gs)
        if not al: return False
        if not any(a[0] in ('shift', 'shiftstrong') or a[0] in ('reduce', 'weak') and self.can_after('n', gs, a, st()) for a in al): return False
        while True:
            self.burn()
            done = None
            for a in self.acts(st()[-1], 'n', gs):
                if a[0] == 'weak' and not self.can_after('n', gs, a, st()): continue
                if a[0] == 'guard': continue
                done = self.perform(a, la, real, gstack); break
            if done is None: return True
            if done: return True
    def process(self):
        tok = self.look(self.pos)
        la = (self.pos, tok) if tok is not None else (None, None)
        kind, sym = ('t', tok) if tok is not None else ('n', EOI)
        for a in self.acts(self.stack[-1][0], kind, sym):
            if a[0] == 'weak' and not self.can_after(kind, sym, a, self.states()): continue
            if a[0] == 'guard':
                g = self.guard(a[1], self.pos)
                if g < 0: continue
                if self.take_guard(g, la, True, None): return 'more'
                continue
            if a[0] == 'accept': return 'accept'
            if self.perform(a, la, True, None): self.pos += 1
            return 'more'
        return 'reject'

def oracle(g, stack, n=0):
    """what the machine does for every completion of the table contents g: [(g, verdict, events, stack, position)]"""
    M = Machine(g, stack)
    try:
        v = M.process()
        return [(g, v, tuple(M.events), tuple(M.stack), M.pos)]
    except Invalid: return []
    except Missing as m:
        if n > 6: return []
        out = []
        for g2, _ in m.args[0](g): out += oracle(g2, stack, n + 1)
        return out

def method(P, cls, name, n):
    ms = [m for m in P.methods_of.get(cls, []) if m['sn'] == name and len(m['params']) == n and m.get('body') is not None]
    if not ms: raise Broken('anchor vanished: %s::%s with %d parameters' % (cls, name, n))
    return ms[0]

def token_fields(P):
    I = ArrayInterp(P)
    m = [x for x in P.methods_of['dfa::lexeme'] if x['sn'] == 'matched' and not x['params']]
    if not m: raise Broken('anchor vanished: dfa::lexeme::matched')
    r = I.run(m[0], State(), ('O', 'lx'), [])
    v = I.argval(r[0][0], r[0][1])
    if v[0] != 'init' or v[1][0] != 'fld': raise Broken('dfa::lexeme::matched not understood')
    f = v[1][2]
    return f, [(x['n'], x['ti']) for c, x in P.all_fields('dfa::lexeme') if x['n'] != f and not x.get('mutable')]

def start(P, I, pcls, depth):
    """a parser whose stack has some unknown items; -> state, location of the parser state, stack"""
    st = State()
    ctor = [m for m in P.methods_of[pcls] if m.get('kind') == 'ctor' and len(m['params']) == 2 and m['params'][0]['ti'].get('ptr')]
    if not ctor: raise Broken('anchor vanished: parser constructor taking tables')
    pl = ('O', 'parser')
    st = I.run(ctor[0], st, pl, [('ptr', ('O', 'tables')), C(0)])[0][0]
    r = I.run(method(P, pcls, 'create_parser', 2), st, pl, [('ptr', ('O', 'actions')), C(0)])
    if len(r) != 1 or r[0][1][0] != 'ptr': raise Broken('parser::create_parser not understood')
    st, loc = r[0][0], r[0][1][1]
    stk = [k for k in st.store if k[0] == 'fld' and k[2] == '#stk']
    if len(stk) != 1: raise Broken('parser::create_parser: stack not found')
    if [num(I.read(st, ('fld', st.store[stk[0]][-1], 'state')))] != [0] or len(st.store[stk[0]]) != 1: raise Broken('parser::create_parser does not start in the initial state')
    entries, model = [], []
    for i in range(depth):
        item = ('s', 'old item', i)
        entries.append(I.new_entry(st, C(i), item))
        model.append((i, item))
    st.store[stk[0]] = tuple(entries)
    return st, loc, model, stk[0]

def fmtacts(g):
    out = []
    for k, v in g.items():
        if k[0] == 'list':
            s = {EOI: 'end of input', EOG: 'end of guard'}.get(k[3], 'token %d' % (k[3] - 10) if k[1] == 't' else 'nonterminal %d' % k[3])
            out.append('state %s, %s: %s' % (k[2], s, ', '.join('%s %s' % (a, ('of %d items as %d' % (g[('rule', n)][2], g[('rule', n)][0])) if a in RED else n if a != 'ignore' else '') for a, n in v[0]) or 'nothing'))
        if k[0] == 'eog' and v: out.append('state %d ends a guard' % k[1])
    return '; '.join(out)

def enum_values(P, suffix):
    for n, e in P.enums.items():
        if n.endswith(suffix): return {x['n']: x['v'] for x in e['e']}
    raise Broken('anchor vanished: enumeration ' + suffix)

def lookahead_check(P, ctx, I, types, results, pcls, scls):
    """several states share one stream of tokens: each sees all of them, in order, and none is read twice"""
    copy = [m for m in P.methods_of[scls] if m.get('kind') == 'copyctor' and m.get('body')]
    if not copy: raise Broken('anchor vanished: copy constructor of the parser state')
    look, nxt = method(P, scls, 'look', 1), method(P, scls, 'next', 0)
    tokens = range(CH.TOKENS)
    ops = [('look', i, k) for i in range(3) for k in range(3)] + [('next', i) for i in range(3)]
    base, s0, _, _ = start(P, I, pcls, 1)
    for i in tokens: base.ghost[('token', i)] = True
    locs = [s0]
    for k in (1, 2):
        l = I.newloc('new')
        r = I.run(copy[0], base, l, [('refto', s0)])
        if len(r) != 1: raise Broken('copy constructor of the parser state not understood')
        base = r[0][0]; locs.append(l)
    n = 0
    bad = False
    def shape(x, pos): return pos, x.ghost.get('reads', 0), frozenset((k, v) for k, v in x.store.items() if k[0] == 'fld' and k[1][0] == 'L' and k[1][1] == 'new')
    todo = [(base, (0,) * len(locs), ())]
    seen = {shape(base, todo[0][1])}
    while todo:
        s, pos, hist = todo.pop(0)
        for op in ops:
            if op[0] == 'next' and pos[op[1]] >= min(s.ghost.get('reads', 0), len(tokens)): continue      # nothing looked at yet
            x = s.copy()
            try: r = I.run(look if op[0] == 'look' else nxt, x, locs[op[1]], [C(op[2])] if op[0] == 'look' else [])
            except TooComplex: ctx.unknown('lookahead %s' % (hist + (op,),)); continue
            if len(r) != 1: ctx.unknown('lookahead %s' % (hist + (op,),)); continue
            x, v = r[0]
            n += 1
            np = tuple(p + 1 if op[0] == 'next' and i == op[1] else p for i, p in enumerate(pos))
            if op[0] == 'look':
                got = I.item_of(x, I.argval(x, v))
                k = pos[op[1]] + op[2]
                want = ('ptr', ('O', 'token%d' % k)) if k < len(tokens) else NULL
                if got[0] not in ('ptr', 'c'): ctx.unknown('lookahead %s: value not known' % (hist + (op,),)); continue
                if got != want:
                    bad = True
                    ctx.bad('lookahead:look', '%s: after %s, token %s is seen where token %s comes next (%s)' % (P.where(look), fmt(hist), tokname(got), tokname(want), fmt((op,))))
                    continue
                if x.ghost.get('reads', 0) > max(k + 1, s.ghost.get('reads', 0)) or x.ghost.get('reads', 0) > len(tokens) + 1:
                    bad = True
                    ctx.bad('lookahead:read', '%s: after %s, more tokens are read than were asked for, or reading goes on after the end of the input' % (P.where(look), fmt(hist + (op,))))
            if x.ghost.get('oob') or x.ghost.get('nullderef'): bad = True; ctx.bad('lookahead:bounds', '%s: the list of lookahead tokens is read outside its bounds after %s' % (P.where(look), fmt(hist + (op,))))
            h = shape(x, np)
            if h not in seen:
                seen.add(h)
                todo.append((x, np, hist + (op,)))
    ctx.count('lookahead_transitions', n)
    ctx.count('lookahead_states', len(seen))
    ctx.need(n, 100, 'lookahead operations')
    if not bad: ctx.ok('lookahead shared by three states: %d operations from %d configurations' % (n, len(seen)))

def fmt(h): return ', '.join('%s(%s)' % (o[0], ','.join(map(str, o[1:]))) for o in h) or 'nothing'
def tokname(v): return 'none' if v == NULL else v[1][1][5:] if v[0] == 'ptr' and v[1][0] == 'O' else '?'

def find_parser(P):
    for c in sorted(P.recs):
        if c.startswith('lr::parser<int, lr::simple_parser_actions') and c.endswith('>::state'): return c[:-len('::state')], c
    raise Broken('anchor vanished: lr::parser<int, lr::simple_parser_actions>::state')

def roots(thorough):
    for kind in 't', 'n':
        for l in first_lists(kind):
            for noise in (0, 1): yield kind, l, noise, ()
    # guards that have read a token, and trials of reductions that have made one, before the free choice starts
    sh, rd, wk, gu = ('shift', 0), ('reduce', 1), ('weak', 1), ('guard', 0)
    for l in ((gu,), (gu, sh)):
        for sc in (((sh,),), ((sh,), (gu,)), ((sh,), (gu,), (sh,)), ((sh,), (gu, sh), (sh,)), ((sh,), (sh,)), ((sh,), (sh,), (rd,)), ((wk, sh),)): yield 't', l, 1, sc
    for l in ((wk, sh), (wk, wk, sh), (('weak', 0), sh), (wk, rd), (('weak', 2), rd)):
        for sc in (((rd,),), ((wk,),), ((wk, rd),), ((('weak', 2),),), ((('weak', 2), rd),), ((wk,), (rd,)), ((('weak', 0),), (('reduce', 2),)), ((wk,), (wk,), (rd,))): yield 't', l, 1, sc
    for sc in (((('reduce', 1),),), ((('weak', 1),), (('reduce', 1),)), ((('weak', 2),),)): yield 'n', (('weak', 1), ('accept', 1)), 0, sc

def analyse(P, I, job, pcls, scls, results):
    """one list of actions for the first lookup -> (paths, undecided, {key: message})"""
    kind, lst, noise, script = job
    CH.SMALL, CH.LIMIT = I.bounds
    st, loc, stack, sk = start(P, I, pcls, 4)
    g = dict(st.ghost)
    g, acts = CH.named(g, lst, 't')
    if kind == 't': g[('token', 0)] = True
    else: g[('token', 0)] = False
    sym = symbol(0) if kind == 't' else EOI
    g[('list', kind, len(stack) - 1, sym)] = (acts, noise)
    if script: g['script'] = script
    st.ghost = g
    pf, look = method(P, scls, 'process', 0), method(P, scls, 'look', 1)
    bad, n, unk = {}, 0, 0
    def report(key, msg, g): bad.setdefault(key, '%s: %s (%s)' % (P.where(pf), msg, fmtacts(g)))
    for s, v in I.run(pf, st, loc, []):
        n += 1
        want = oracle(s.ghost, stack)
        if not want: continue          # not a table the library can build (a reduction of more items than there are, no end...)
        g = s.ghost
        if 'stuck' in g: unk += 1; continue
        if 'oob' in g: report('bounds', 'the actions of a state are read past their end in %s, line %s' % (g['oob'][3].split('::')[-1], g['oob'][4]), g); continue
        if 'nullderef' in g: report('null', 'the null pointer is followed in %s, line %s' % (g['nullderef'][0].split('::')[-1], g['nullderef'][1]), g); continue
        if 'underflow' in g: report('underflow', 'more items are taken from the stack than there are', g); continue
        if 'norule' in g: report('rule', 'a rule is looked up that no action names', g); continue
        got = results.get(num(v)) if isC(v) else None
        if got is None or 'stuck' in g: unk += 1; continue
        ev = g.get('events', ())
        stk = tuple((num(I.read(s, ('fld', x, 'state'))), I.read(s, ('fld', x, 'item'))) for x in s.store[sk])
        nx = I.run(look, s.copy(), loc, [C(0)])
        for g2, r, wev, wstk, pos in want:
            if got != r: report('verdict', 'the step says %s where the table says %s' % (got, r), g2); break
            if ev != wev:
                if any('?' in str(x) for x in ev): unk += 1; break
                report('actions', 'the step calls %s where the table says %s' % (describe(ev), describe(wev)), g2); break
            if stk != wstk: report('stack', 'the stack is %s after the step where the table says %s' % (fmtstk(stk), fmtstk(wstk)), g2); break
            for s3, l in nx:
                if s3.ghost.get(('token', pos)) is None: continue
                t = I.item_of(s3, I.argval(s3, l))
                if t != (I.tokptr(pos) if s3.ghost[('token', pos)] else NULL): report('lookahead', 'token %s comes after the step where token %d should' % (tokname(t), pos), g2); break
    return n, unk, bad

def fmtstk(s): return ' '.join('%s:%s' % (a, b[-1]) for a, b in s)

def work(a):
    P, acts, types, pcls, scls, results, bounds, job = a
    I = ParserInterp(P, acts, types)
    I.matched, I.content = token_fields(P)
    I.bounds = bounds
    try: return job, analyse(P, I, job, pcls, scls, results)
    except TooComplex as x: return job, (0, 1, {'?': str(x)})

def run(P, ctx):
    ctx.explanation = ('abstract interpretation of one step of the parser (parser::state::process) from an unknown stack, with unknown tokens and tables represented by the outcome of each lookup; on each path compared with the LR machine')
    ctx.assumptions = ['the parser stack behaves as a stack (C10)', 'tables have a goto for each reduction they allow (what parser_tables builds)', 'divert actions, which no part of the library creates, are not covered']
    pcls, scls = find_parser(P)
    types = enum_values(P, 'lr_action::action_type')
    results = {v: k for k, v in enum_values(P, 'parser_result::result').items()}
    acts = 'lr::simple_parser_actions'
    bounds = (3, 7) if ctx.tier == 'thorough' else (2, 5)
    from parallel import pmap
    n = 0
    good = True
    fam = {}
    for job, (k, unk, bad) in pmap(work, [(P, acts, types, pcls, scls, results, bounds, j) for j in roots(ctx.tier == 'thorough')]):
        n += k
        name = '%s: %s' % ('token' if job[0] == 't' else 'end of input', ', '.join(a for a, _ in job[1]) or 'nothing')
        if '?' in bad or (unk and not bad): ctx.unknown('%s (%d paths): %s' % (name, unk, bad.get('?', '')))
        for key, msg in sorted(bad.items()):
            if key != '?': ctx.bad(key, msg)
        if not bad and not unk: ctx.ok('%s: %d paths' % (name, k))
        fam[job[1][0][0] if job[1] else 'nothing'] = fam.get(job[1][0][0] if job[1] else 'nothing', 0) + k
    ctx.count('paths', n)
    for k, v in sorted(fam.items()): ctx.count('paths_' + k, v)
    I = ParserInterp(P, acts, types)
    I.matched, I.content = token_fields(P)
    lookahead_check(P, ctx, I, types, results, pcls, scls)
    ctx.need(n, 1000, 'paths')

def describe(ev):
    if not ev: return 'nothing'
    out = []
    for e in ev:
        if e[0] == 'shift': out.append('shift(token %s as %s)' % e[1])
        else: out.append('reduce(%s, rule %s, items %s, lookahead at %s)' % (e[1], e[2], [x[-1] for x in e[3]] if e[3] is not None else '?', e[4]))
    return ', '.join(out)
