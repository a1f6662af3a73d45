"""C07 - the parser built for a grammar is its LALR(1) parser.

For many small grammars (nullable and recursive nonterminals, EBNF items, guards, several languages) the sets FIRST and the
states and actions of the parser are evaluated exactly and compared with the textbook construction: the two machines are walked
side by side from their initial states, and have to shift, go, reduce, accept and check guards on the same symbols throughout."""
import random
from absint import C, isC, NULL, TooComplex
from drive import Undecided, Problem, find
from gram import Gram, GramInterp, CF, cont
from parallel import pmap
import exact
from facts import Broken

B, G = 'lr::lalr_builder', CF + 'grammar'
EBNF = {'opt': 'ebnf_optional', 'rep': 'ebnf_repeating', 'rep0': 'ebnf_repeating_optional', 'alt': 'ebnf_alternate'}
class Bad(Exception): pass

# ---------------------------------------------------------------------------------------------- reference
START = ('empty',)
def show(s):
    if s[0] == 't': return 'abcdefghij'[s[1]] if s[1] < 10 else "'%d'" % s[1]
    if s[0] == 'n': return 'SABCDEFGHI'[s[1]] if s[1] < 10 else 'N%d' % s[1]
    if s[0] == 'empty': return 'empty'
    if s[0] in ('eoi', 'eog'): return {'eoi': '$', 'eog': '%'}[s[0]]
    if s[0] == 'alt': return '(' + ' | '.join(body(b) for b in s[1]) + ')'
    if s[0] == 'guard': return '[=> %s]' % body(s[1])
    return '(%s)%s' % (body(s[1]), {'opt': '?', 'rep': '+', 'rep0': '*'}[s[0]])
def body(b): return ' '.join(show(x) for x in b) or 'nothing'
def show_rule(r): return '%s -> %s' % (show(r[0]), body(r[1]))
def show_gram(g): return '; '.join(show_rule((('n', n), b)) for n, b in g)

class Ref:
    def __init__(self, g):
        self.g = g
        self.rules_of = {}
        self.nullable, self.firsts = set(), {}
        self.symbols = set()
        todo = [x for n, b in g for x in (('n', n),) + b]
        while todo:
            s = todo.pop()
            if s in self.symbols: continue
            self.symbols.add(s)
            if s[0] == 'guard': todo += s[1]
            for b in self.rules(s): todo += b
        self.firsts = {s: {s} if s[0] in ('t', 'guard') else set() for s in self.symbols}
        ch = True
        while ch:
            ch = False
            for s in self.symbols:
                for b in self.rules(s):
                    f, nul = self.first(b)
                    if nul and s not in self.nullable: self.nullable.add(s); ch = True
                    if not f <= self.firsts[s]: self.firsts[s] |= f; ch = True
    def rules(self, s):
        r = self.rules_of.get(s)
        if r is None:
            if s[0] == 'n': r = [b for n, b in self.g if n == s[1]]
            elif s[0] == 'opt': r = [(), s[1]]
            elif s[0] == 'rep': r = [s[1], (s,) + s[1]]
            elif s[0] == 'rep0': r = [(), (s,) + s[1]]
            elif s[0] == 'alt':
                r, done, todo = [], {s}, list(s[1])
                while todo:
                    b = todo.pop()
                    if len(b) == 1 and b[0][0] == 'alt':
                        if b[0] not in done: done.add(b[0]); todo += b[0][1]
                    else: r.append(b)
            else: r = []
            r = self.rules_of[s] = sorted(set(r), key=repr)
        return r
    def first(self, b):
        """-> (symbols, nullable)"""
        out = set()
        for x in b:
            out |= self.firsts[x]
            if x not in self.nullable: return out, False
        return out, True
    def initial(self, guard, seen=()):
        f, _ = self.first(guard[1])
        out = {x for x in f if x[0] == 't'}
        for x in f:
            if x[0] == 'guard' and x not in seen: out |= self.initial(x, seen + (x,))
        return out
    def closure(self, items):
        """{(lhs, body, dot): lookahead}, closed"""
        items = {k: set(v) for k, v in items.items()}
        todo = list(items)
        while todo:
            lhs, b, dot = k = todo.pop()
            if dot >= len(b): continue
            x = b[dot]
            rs = self.rules(x)
            if not rs: continue
            f, nul = self.first(b[dot + 1:])
            la = f | items[k] if nul else f
            for r in rs:
                n = (x, r, 0)
                if n not in items: items[n] = set(la); todo.append(n)
                elif not la <= items[n]: items[n] |= la; todo.append(n)
        return items
    def machine(self, languages):
        self.las, self.kid, self.trans, self.guards = [], {}, [], {}
        todo = []
        def state(kernel):
            """kernel = {item: lookahead}; merged with the state that has the same items"""
            k = frozenset(kernel)
            if k not in self.kid:
                self.kid[k] = len(self.las); self.las.append({i: set() for i in k}); self.trans.append({})
                todo.append(self.kid[k])
            n = self.kid[k]
            if any(not la <= self.las[n][i] for i, la in kernel.items()):
                for i, la in kernel.items(): self.las[n][i] |= la
                if n not in todo: todo.append(n)
            return n
        self.starts = [state({(START, (l,), 0): {('eoi',)}}) for l in languages]
        while todo:
            n = todo.pop(0)
            goto = {}
            for (lhs, b, dot), la in self.closure(self.las[n]).items():
                if dot < len(b): goto.setdefault(b[dot], {})[(lhs, b, dot + 1)] = la
            for x in sorted(goto, key=repr):
                if x[0] == 'guard' and x not in self.guards: self.guards[x] = state({(x, x[1], 0): {('eog',)}})
                self.trans[n][x] = state(goto[x])
    def actions(self, n):
        """{(type, symbol, rule or None): target or None}"""
        out = {}
        def guard(x):
            if x in self.guards:
                for t in self.initial(x): out['act_guard', t, (x, x[1])] = self.guards[x]
        for x, m in self.trans[n].items():
            out['act_shift' if x[0] in ('t', 'guard') else 'act_goto', x, None] = m
            if x[0] == 'guard': guard(x)
        for (lhs, b, dot), la in self.closure(self.las[n]).items():
            if dot < len(b): continue
            for x in la:
                if x[0] == 'guard': guard(x)
                out['act_accept' if lhs[0] in ('empty', 'guard') else 'act_reduce', x, (lhs, b)] = None
        return out

# ---------------------------------------------------------------------------------------------- the program
class Build(Gram):
    def __init__(self, P):
        Gram.__init__(self, P)
        en, ek = P.enums.get('lr::lr_action::action_type'), P.enums.get(CF + 'item::kind')
        if not en or not ek: raise Broken('anchor vanished: lr_action::action_type or item::kind')
        self.kinds = {c['v']: c['n'] for c in en['e']}
        self.ikinds = {c['v']: c['n'] for c in ek['e']}
        self.dec = {}
        self.I.limit = 1500000
    def item(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if s in self.cache: return self.cache[s]
        c = cont(self.P, CF + 'item')
        if s[0] == 't': o = self.new(CF + 'terminal', ('int',), (C(s[1] + 10),))
        elif s[0] == 'n': o = self.new(CF + 'nonterminal', ('int',), (C(s[1]),))
        elif s[0] == 'empty': o = self.new(CF + 'empty_item')
        elif s[0] == 'eoi': o = self.new(CF + 'end_of_input')
        elif s[0] == 'eog': o = self.new(CF + 'end_of_guard')
        elif s[0] == 'guard':
            o = self.new(CF + 'guard', ('int',), (C(-1),))
            self.fill(self.call(o, CF + 'guard', 'get_rule'), s[1])
        elif s[0] == 'alt':
            o = self.new(CF + 'ebnf_alternate')
            for i, b in enumerate(s[1]): self.fill(self.call(o, CF + 'ebnf', 'get_rule') if i == 0 else self.call(o, CF + 'ebnf_alternate', 'add_rule'), b)
        else:
            o = self.new(CF + EBNF[s[0]])
            self.fill(self.call(o, CF + 'ebnf', 'get_rule'), s[1])
        self.cache[s] = self.container(c, o)
        return self.cache[s]
    def fill(self, rule, b):
        r = self.inside(self.loc(rule), CF + 'rule')
        for x in b: self.call(r, CF + 'rule', 'operator<<', ('container<contextfree::item',), (('refto', self.item(x)),))
    def inside(self, loc, of):
        """the object in a container"""
        v = self.val(self.call(loc, cont(self.P, of), 'item'))
        if v[0] != 'ptr': raise Undecided('a container holds nothing')
        return v[1]
    def elements(self, v):
        v = self.I.read(self.st, self.loc(v))
        if v[0] == 'empty': return []
        if v[0] not in ('vec', 'oset', 'push'): raise Undecided('the elements of a collection')
        v = self.I.norm(self.st, v) if v[0] == 'push' else v
        return [x[1] if x[0] == 'rec' else self.I.temp(self.st, x) for x in v[1]]
    def between(self, v):
        """the elements of the collection an iterator points into"""
        v = self.val(v)
        if v[0] != 'it': raise Undecided('an iterator')
        return self.elements(('refto', v[1]))
    def decode(self, loc):
        """symbol for an item container"""
        o = self.inside(loc, CF + 'item')
        if o in self.dec: return self.dec[o]
        cls = self.st.ghost.get(('type', o)) or self.I.dyn(self.st, o) if hasattr(self.I, 'dyn') else self.st.ghost.get(('type', o))
        if not cls: raise Undecided('the type of an item')
        k = cls.split('::')[-1]
        sym = lambda: self.num(self.call(o, CF + 'item', 'symbol'))
        if k == 'terminal': s = ('t', sym() - 10)
        elif k == 'nonterminal': s = ('n', sym())
        elif k == 'empty_item': s = START
        elif k == 'end_of_input': s = ('eoi',)
        elif k == 'end_of_guard': s = ('eog',)
        elif k == 'guard': s = ('guard', self.body(self.inside(self.loc(self.call(o, CF + 'guard', 'get_rule')), CF + 'rule')))
        else:
            kind = [a for a, b in EBNF.items() if b == k]
            if not kind: raise Undecided('an item of type ' + k)
            bs = tuple(self.body(self.inside(x, CF + 'rule')) for x in self.between(self.call(o, CF + 'ebnf', 'first_rule')))
            s = (kind[0], bs if kind[0] == 'alt' else bs[0])
        self.dec[o] = s
        return s
    def body(self, r): return tuple(self.decode(x) for x in self.elements(self.call(r, CF + 'rule', 'items')))
    def rule_of(self, loc):
        r = self.inside(loc, CF + 'rule')
        if ('rule', r) not in self.dec:
            n = self.loc(self.call(r, CF + 'rule', 'nonterminal'))
            self.dec['rule', r] = (self.decode(n), self.body(r))
        return self.dec['rule', r]
    def grammar(self, g):
        gr = self.new(G)
        for n, b in g:
            # each rule is made of items of its own, as the compiler makes them
            nt = self.new(CF + 'nonterminal', ('int',), (C(n),))
            bl = self.loc(self.call(gr, G, 'operator+=', ('nonterminal',), (('refto', nt),)))
            for x in b: self.call(bl, G + '::builder', 'operator<<', ('container',), (('refto', self.item(x)),))
        return gr
    def first(self, gr, s, of):
        """which of the symbols are in FIRST"""
        l = self.loc(self.call(gr, G, 'first', ('container',), (('refto', self.item(s)),)))
        return {x for x in of if self.num(self.call(l, CF + 'item_set', 'contains', ('container',), (('refto', self.item(x)),)))}
    def actions(self, b, n):
        out = {}
        for l in self.elements(self.call(b, B, 'actions_for_state', ('int',), (C(n),))):
            a = self.inside(l, 'lr::lr_action')
            ty = self.kinds.get(self.num(self.call(a, 'lr::lr_action', 'type')))
            x = self.decode(self.loc(self.call(a, 'lr::lr_action', 'item')))
            r = m = None
            if ty not in ('act_shift', 'act_goto'): r = self.rule_of(self.loc(self.call(a, 'lr::lr_action', 'rule')))
            if ty in ('act_shift', 'act_goto', 'act_guard'): m = self.num(self.call(a, 'lr::lr_action', 'next_state'))
            k = (ty, x, r)
            if k in out and out[k] != m: raise Bad('two actions for %s lead to states %s and %s' % (show_action(k), out[k], m))
            out[k] = m
        return out

WORD = {'act_shift': 'shift', 'act_goto': 'go on', 'act_reduce': 'reduce', 'act_accept': 'accept', 'act_guard': 'check a guard on'}
def show_action(k): return '%s %s%s' % (WORD.get(k[0], k[0]), show(k[1]), '' if k[2] is None else ' by ' + show_rule(k[2]))

def do_first(P, job):
    """FIRST of every symbol, asked for in a given order"""
    g, order = job
    ref = Ref(g)
    d = Build(P)
    gr = d.grammar(g)
    of = sorted((x for x in ref.symbols if x[0] in ('t', 'guard')), key=repr)
    todo = sorted((x for x in ref.symbols if x[0] != 't'), key=repr)
    random.Random(order).shuffle(todo) if order else None
    for s in todo[:8]:
        got, want = d.first(gr, s, of + [START]), ref.firsts[s] | ({START} if s in ref.nullable else set())
        if got != want:
            x = sorted(got ^ want, key=repr)[0]
            raise Bad('FIRST(%s) %s %s (%s)' % (show(s), 'has' if x in got else 'does not have', show(x), show_gram(g)))
    return len(todo[:8])

def do_build(P, job):
    g, langs = job
    ref = Ref(g)
    ref.machine(langs)
    d = Build(P)
    gr = d.grammar(g)
    td = d.new(CF + 'terminal_dictionary')
    b = d.new(B, ('grammar', 'terminal_dictionary'), (('refto', gr), ('refto', td)))
    starts = [d.num(d.call(b, B, 'add_initial_state', ('container',), (('refto', d.item(l)),))) for l in langs]
    d.call(b, B, 'complete_parser')
    n = d.num(d.call(b, B, 'count_states'))
    pairs, todo = {}, [(s, r, ()) for s, r in zip(starts, ref.starts)]
    acts = {}
    count = 0
    while todo:
        s, r, path = todo.pop(0)
        if (s, r) in pairs: continue
        pairs[s, r] = 1
        if not 0 <= s < n: raise Bad('after %s the parser is in state %d of %d (%s)' % (body(path), s, n, show_gram(g)))
        if s not in acts: acts[s] = d.actions(b, s)
        got, want = acts[s], ref.actions(r)
        count += len(want)
        for k in sorted(set(got) ^ set(want), key=repr):
            raise Bad('after %s the parser %s (%s)' % (body(path) if path else 'nothing', ('can %s where it should not' if k in got else 'cannot %s') % show_action(k), show_gram(g)))
        for k, m in got.items():
            if m is not None: todo.append((m, want[k], path + (k[1],) if k[0] != 'act_guard' else (('guard', k[2][1]),)))
    return count

# ---------------------------------------------------------------------------------------------- grammars
def t(c): return ('t', 'abcdefghij'.index(c))
def parse(text):
    """S -> A b | ; A -> (a)? ..."""
    g = []
    for r in text.split(';'):
        l, b = r.split('->')
        for alt in split_top(b): g.append(('SABCDEFGHI'.index(l.strip()), seq(alt)))
    return tuple(g)
def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += c in '(['; d -= c in ')]'
        if c == '|' and d == 0: out.append(cur); cur = ''
        else: cur += c
    return out + [cur]
def seq(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c.isspace(): i += 1; continue
        if c in '([':
            d, j = 0, i
            while True:
                d += s[j] in '(['; d -= s[j] in ')]'
                if d == 0: break
                j += 1
            inner, i = s[i + 1:j], j + 1
            if c == '[': out.append(('guard', seq(inner))); continue
            k = {'?': 'opt', '+': 'rep', '*': 'rep0'}.get(s[i:i + 1])
            if k: out.append((k, seq(inner) if len(split_top(inner)) == 1 else (('alt', tuple(seq(x) for x in split_top(inner))),))); i += 1
            else: out.append(('alt', tuple(seq(x) for x in split_top(inner))))
            continue
        out.append(t(c) if c.islower() else ('n', 'SABCDEFGHI'.index(c)))
        i += 1
    return tuple(out)

PLAIN = '''S -> A b | ; A -> c | | S d
S -> A a | d A b | c b | d c a; A -> c
S -> A a | b A c | d c | b d a; A -> d
S -> B e A | A; A -> c A | d; B -> A
S -> a A d | b B d | a B e | b A e; A -> c; B -> c
S -> A B; A -> a | ; B -> b | 
S -> A B C; A -> a | ; B -> b | ; C -> c | A
S -> A A; A -> a A | b
S -> S a | a
S -> a S | a
S -> a S b | 
S -> A; A -> B c | ; B -> A d | e | S a
A -> B c | ; B -> d | | A e; S -> A
A -> a; A -> B B d; B -> b | ; S -> A A c
S -> A B c; A -> B a | ; B -> A b | 
S -> A; A -> B; B -> C; C -> A a | b | 
S -> A a A b | B b B a; A -> ; B -> 
S -> a | a b | a b c; A -> S
S -> A S | b; A -> B ; B -> a | C; C -> 
S -> A B | b; A -> B d | ; B -> C a | ; C -> b | A
S -> S S | a | 
S -> A S a | ; A -> b | S
S -> A c | B d; A -> a A | a; B -> a B | a
S -> A | B; A -> B a; B -> A b | c
S -> a A c | a B d | b B c; A -> e; B -> e f | e
S -> A c | B d; A -> a B | b; B -> a A | b
S -> A a | B b; A -> c B | c | ; B -> c A | c C; C -> d'''.split('\n')
EXTRA = '''S -> (a)? b
S -> (A)* b; A -> a | 
S -> (A b)? c; A -> a | 
S -> (A b)+ c; A -> a | 
S -> (A b)* c; A -> a | 
S -> (A b | B c | d) a; A -> a | ; B -> b | 
S -> A (A)? c; A -> a | b
S -> a (b)* a (b)* c
S -> (a | b)+ c | (a | b)+ d
S -> ((a | b) | c) d
S -> ((a)? b)* c
S -> (((a | b)) | c (b | a)) d
S -> ((a | b)+ c)* d
S -> (a)? (b)? (c)? d
S -> ((a)?)+ b
S -> A b | (A)? d; A -> (a)* c
S -> ((a | (b | (c | )))) d
S -> ()? a
S -> (a b | a c | a)
S -> A (b A)* ; A -> a | d S e
S -> (S a | b)? c
S -> (((c | d) | (a | b) | (a | b)) | e) f
S -> (((a | b) | (c | (a | b))) | (c | d) | (c | d)) f
S -> A* b; A -> a'''.split('\n')[:-1]
GUARDS = '''S -> [a b] a A | a B; A -> b ; B -> c
S -> A [b] b | A [c] c; A -> a
S -> [A d] A d | A e; A -> a A | b
S -> [[a] a b] a b | a c
S -> A [a b] a b | A a c; A -> 
S -> ([a b] a b | a)+
S -> [(a | b) c] A c | A d; A -> a | b
S -> [A b] a | b ; A -> | c
S -> A B ; A -> ([a b] a)* ; B -> a b | a c
S -> [a [b] b] a b | a c; A -> [b] b
S -> [A d] A e | A f; A -> a | b | c | g
S -> A [B d] b | A [C e] c | a; A -> ; B -> b | c | a ; C -> c | b B'''.split('\n')
def n(k): return ('n', k)

def random_grammar(seed, ebnf):
    r = random.Random(seed)
    nts, ts = r.choice((2, 3, 3)), r.choice((2, 3, 4))
    def sym(depth):
        x = r.random()
        if ebnf and depth < 2 and x < 0.3:
            k = r.choice(('opt', 'rep', 'rep0', 'alt'))
            if k == 'alt': return ('alt', tuple(bod(depth + 1, 0, 2) for _ in range(r.choice((2, 2, 3)))))
            return (k, bod(depth + 1, 1, 2))
        if x < 0.7: return ('t', r.randrange(ts))
        return ('n', r.randrange(nts))
    def bod(depth, lo, hi): return tuple(sym(depth) for _ in range(r.randint(lo, hi)))
    g = []
    for k in range(nts):
        for _ in range(r.choice((1, 2, 2, 3))): g.append((k, bod(0, 0, 3)))
    return tuple(dict.fromkeys(g))

def jobs(tier):
    out = []
    deep = tier == 'thorough'
    for s in PLAIN + EXTRA + GUARDS:
        g = parse(s)
        for o in range(4 if deep else 2): out.append(('first', (g, o)))
        out.append(('build', (g, (n(0),))))
    for k in range(120 if deep else 24):
        for e in (0, 1):
            g = random_grammar(1000 + k, e)
            for o in range(2 if deep else 1): out.append(('first', (g, o + 1)))
            ref = Ref(g); ref.machine((n(0),))
            if len(ref.las) <= (60 if deep else 25): out.append(('build', (g, (n(0),))))
    for s in (PLAIN[0], PLAIN[5], PLAIN[7], PLAIN[11], EXTRA[15], GUARDS[2]): out.append(('build', (parse(s), (n(0), n(1)))))
    out.append(('build', (parse(PLAIN[11]), (n(1), n(0), n(1)))))
    return out

DO = {'first': do_first, 'build': do_build}
PROG = None
def work(job):
    try: return ('ok', DO[job[0]](PROG, job[1]))
    except Bad as x: return ('bad', str(x))
    except Problem as x: return ('bad', x.text(PROG))
    except (Undecided, TooComplex) as x: return ('unknown', str(x)[:200])
    except RecursionError: return ('unknown', 'recursion')

def run(P, ctx):
    global PROG
    PROG = P
    js = jobs(ctx.tier)
    done = {'first': 0, 'build': 0}
    for job, (k, v) in zip(js, pmap(work, js, 1)):
        ctx.count('grammars_' + ('built' if job[0] == 'build' else 'first'))
        if k == 'ok': done[job[0]] += 1; ctx.count('actions_compared' if job[0] == 'build' else 'first_sets', v); ctx.ok()
        elif k == 'unknown': ctx.unknown('%s of %s: %s' % (job[0], show_gram(job[1][0]), v))
        else: ctx.bad({'first': 'grammar::first', 'build': 'lalr_builder'}[job[0]], v)
    ctx.need(done['first'], 10, 'grammars whose FIRST sets are compared')
    ctx.need(done['build'], 10, 'grammars whose parsers are compared')
