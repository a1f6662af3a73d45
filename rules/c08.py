"""C08 - conflicts are resolved as declared, and the others are reported.

The parsers of small ambiguous grammars are built with one of the rewriters the compiler uses (ignored symbols, weak symbols,
precedence blocks, conflict attributes, LR(1)); the actions of each state are evaluated exactly and compared with what the
declaration makes of the textbook LALR(1) actions of that state; so is the list of conflicts that is reported."""
import itertools, random
from absint import C, isC, NULL, TooComplex
from drive import Undecided, Problem, find
from gram import CF, cont
from parallel import pmap
from c07 import Build, Ref, Bad, B, G, START, parse, t, n, show, body, show_rule, show_gram, WORD
import exact
from facts import Broken

H = 'verif_build'
WITH_RULE = ('act_reduce', 'act_weakreduce', 'act_accept', 'act_guard')
WITH_STATE = ('act_shift', 'act_shiftstrong', 'act_goto', 'act_guard')
NAMES = dict(WORD, act_weakreduce='weakly reduce', act_shiftstrong='shift the strong symbol for', act_ignore='ignore')
def show_action(k): return '%s %s%s' % (NAMES.get(k[0], k[0]), show(k[1]), '' if k[2] is None else ' by ' + show_rule(k[2]))

# ---------------------------------------------------------------------------------------------- what is declared
def is_t(k): return k[1][0] == 't'
def at_symbols(acts):
    out = {}
    for k in acts:
        if is_t(k): out.setdefault(k[1], []).append(k)
    return sorted(out.items())
def weakened(k): return ('act_weakreduce', k[1], k[2])

def r_none(ref, s, acts, decl): return dict(acts)
def r_ignored(ref, s, acts, decl):
    out = {}
    for k, m in acts.items(): out[weakened(k) if k[0] == 'act_reduce' and k[1] in decl else k] = m
    for x in decl:
        if not any(k[1] == x and k[0] in ('act_shift', 'act_ignore') for k in acts): out['act_ignore', x, None] = None
    return out
def r_weak(ref, s, acts, decl):
    """decl = {strong: set of weak symbols}"""
    if not any(k[1] in decl and decl[k[1]] for k in acts): return dict(acts)
    weak = set().union(*decl.values())
    out, used = {}, set()
    for k, m in acts.items():
        if k[1] not in weak: out[k] = m; continue
        if k[0] in ('act_reduce', 'act_weakreduce'): out[weakened(k)] = m
        else:
            out[k] = m
            if k[0] != 'act_guard': used.add(k[1])
    for k, m in acts.items():
        if k[1] in weak: continue
        for w in decl.get(k[1], ()):
            if w not in used: out['act_shiftstrong' if k[0] == 'act_shift' else k[0], w, k[2]] = m
    return out
def r_precedence(ref, s, acts, decl):
    """decl = [(associativity, symbols)], lowest first"""
    level = {x: (i, a) for i, (a, xs) in enumerate(decl) for x in xs}
    out = dict(acts)
    for x, ks in at_symbols(acts):
        sh, re = [k for k in ks if k[0] == 'act_shift'], [k for k in ks if k[0] == 'act_reduce']
        if len(sh) != 1 or len(re) != 1 or x not in level: continue
        ops = [y for y in re[0][2][1] if y in level]
        if len(ops) != 1: continue
        a, b = level[x], level[ops[0]]
        if a[0] > b[0] or a[0] == b[0] and b[1] == 'right': del out[re[0]]
        elif a[0] < b[0] or b[1] == 'left': del out[sh[0]]
    return out
def r_attributes(ref, s, acts, decl):
    """decl = {(rule, offset): action}"""
    out = dict(acts)
    items = ref.closure(ref.las[s])
    for x, ks in at_symbols(acts):
        sh, re = [k for k in ks if k[0] in ('act_shift', 'act_shiftstrong')], [k for k in ks if k[0] == 'act_reduce']
        if not sh or not re: continue
        how = {decl.get(((lhs, b), dot)) for lhs, b, dot in items if dot < len(b) and b[dot] == x} - {None}
        if not how: continue
        if len(how) > 1: raise Undecided('several attributes')
        how = how.pop()
        if len(re) > 1 and how != 'reduce': continue
        if how == 'reduce':
            for k in sh: del out[k]
        else:
            for k in re:
                del out[k]
                if how == 'weakreduce': out[weakened(k)] = None
    return out

def follow(ref, p, nt):
    """the lookahead of the nonterminal in a state (LALR)"""
    out = set()
    for (lhs, b, dot), la in ref.closure(ref.las[p]).items():
        if dot < len(b) and b[dot] == nt:
            f, nul = ref.first(b[dot + 1:])
            out |= f
            if nul: out |= la
    return out
def below(ref, s, rule, x):
    """states the rule can uncover when it is reduced in s for the symbol x"""
    out = set()
    for p in range(len(ref.las)):
        q = p
        for y in rule[1]:
            q = ref.trans[q].get(y)
            if q is None: break
        if q == s and (rule[0], rule[1], 0) in ref.closure(ref.las[p]) and x in follow(ref, p, rule[0]): out.add(p)
    return out
def r_lr1(ref, s, acts, decl):
    """-> what may be weak: [(symbol, reductions)] of the conflicts that the states below tell apart"""
    out = []
    for x, ks in at_symbols(acts):
        re = [k for k in ks if k[0] == 'act_reduce']
        if len(re) < 2: continue
        bs = [below(ref, s, k[2], x) for k in re]
        if sum(len(b) for b in bs) == len(set().union(*bs)): out.append((x, re))
    return out

# ---------------------------------------------------------------------------------------------- the program
class Conf(Build):
    def __init__(self, P):
        Build.__init__(self, P)
        self.I.limit = 6000000
    def fork(self):
        d = Build.fork(self)
        d.cache, d.dec = dict(self.cache), dict(self.dec)
        return d
    def actions(self, b, s): return self.read_actions(self.elements(self.call(b, B, 'actions_for_state', ('int',), (C(s),))))
    def read_actions(self, els):
        out = {}
        for l in els:
            a = self.inside(l, 'lr::lr_action')
            if ('action', a) in self.dec: (k, m) = self.dec['action', a]; self.put(out, k, m); continue
            ty = self.kinds.get(self.num(self.call(a, 'lr::lr_action', 'type')))
            x = self.decode(self.loc(self.call(a, 'lr::lr_action', 'item')))
            r = self.rule_of(self.loc(self.call(a, 'lr::lr_action', 'rule'))) if ty in WITH_RULE else None
            m = self.num(self.call(a, 'lr::lr_action', 'next_state')) if ty in WITH_STATE else None
            self.dec['action', a] = ((ty, x, r), m)
            self.put(out, (ty, x, r), m)
        return out
    def put(self, out, k, m):
        if k in out and out[k] != m: raise Bad('two actions for %s lead to different states' % show_action(k))
        out[k] = m
    def rewritten(self, b, s, rewriter, cls):
        """the actions a rewriter makes of those of a state"""
        old = self.loc(self.call(b, B, 'actions_for_state', ('int',), (C(s),)))
        self.n += 1
        l = ('O', 'actions#%d' % self.n)
        v = self.I.read(self.st, old)
        if v[0] not in ('oset', 'empty'): raise Undecided('the actions of a state')
        self.st.store[l] = self.I.clone(self.st, v)
        self.st.ghost[('type', l)] = 'std::set<%s>' % cont(self.P, 'lr::lr_action')
        self.call(rewriter, cls, 'rewrite_actions', ('int', 'set', 'lalr_builder'), (C(s), ('refto', l), ('refto', b)))
        return self.read_actions(self.elements(('refto', l)))
    def add(self, b, rewriter, own=1):
        c = self.new(cont(self.P, 'lr::action_rewriter'), ('*', 'bool'), (('ptr', rewriter), C(own)))
        self.call(b, B, 'add_rewriter', ('container',), (('refto', c),))
    def rewriter(self, kind, decl, gr, td, variant=0):
        P = self.P
        if kind == 'ignored':
            r = self.new('lr::ignored_symbols')
            for x in decl: self.call(r, 'lr::ignored_symbols', 'add_item', ('container',), (('refto', self.item(x)),))
        elif kind == 'weak':
            r = self.new('lr::weak_symbols', ('grammar *',), (('ptr', gr),))
            for s, ws in sorted(decl.items()):
                l = self.new(CF + 'item_set', ('grammar *',), (('ptr', gr),))
                for x in sorted(ws): self.call(l, CF + 'item_set', 'insert', ('container',), (('refto', self.item(x)),))
                self.call(r, 'lr::weak_symbols', 'add_symbols', ('container', 'item_set'), (('refto', self.item(s)), ('refto', l)))
            if variant:
                # the form that is given a map
                f = find(P, 'lr::weak_symbols', 'weak_symbols', ('map', 'grammar *'), False)
                if f:
                    m = self.loc(('ptr', ('fld', r, 'm_StrongToWeak')))
                    if self.I.read(self.st, m)[0] in ('opq', 'uninit'): raise Undecided('the map of weak symbols')
                    r = self.new('lr::weak_symbols', ('map', 'grammar *'), (('refto', m), ('ptr', gr)))
        elif kind == 'precedence':
            pos = self.new('dfa::position')
            bl = self.new('yy_language::precedence_block', ('position', 'position'), (('refto', pos), ('refto', pos)))
            assoc = self.enum('yy_language::precedence_block::associativity')
            kinds = self.enum('yy_language::ebnf_item::type')
            for a, xs in decl:
                self.call(bl, H, 'level', ('precedence_block', 'int', 'int', 'int', 'int'), (('refto', bl), C(assoc[a]), C(xs[0][1]), C(xs[1][1] if len(xs) > 1 else -1), C(kinds[('ebnf_terminal', 'ebnf_terminal_string', 'ebnf_terminal_character')[variant % 3]])))
            r = self.new('compiler::precedence_block_rewriter', ('terminal_dictionary', 'precedence_block'), (('refto', td), ('refto', bl)))
        elif kind == 'attributes':
            data = self.new('compiler::rule_item_data')
            en = self.enum('yy_language::ebnf_item_attributes::conflict_action')
            for (rule, off), how in sorted(decl.items(), key=repr):
                for l in self.elements(self.call(gr, G, 'rules_for_nonterminal', ('int',), (C(rule[0][1]),))):
                    if self.rule_of(l) == rule: self.call(data, H, 'mark', ('rule_item_data', 'container', 'int', 'int'), (('refto', data), ('refto', l), C(off), C(en['conflict_' + how]))); break
                else: raise Undecided('a rule of the grammar')
            r = self.new('compiler::conflict_attribute_rewriter', ('rule_item_data',), (('ptr', data),))
        elif kind == 'lr1': r = self.new('lr::lr1_rewriter')
        return r
    def enum(self, name):
        e = self.P.enums.get(name)
        if not e: raise Broken('anchor vanished: ' + name)
        return {c['n']: c['v'] for c in e['e']}
    def conflicts(self, b):
        """[(state, symbol)]"""
        self.n += 1
        l = ('O', 'conflicts#%d' % self.n)
        self.st.store[l] = ('empty',)
        self.st.ghost[('type', l)] = 'std::vector<%s>' % cont(self.P, 'lr::conflict')
        self.call(b, 'lr::conflict', 'find_conflicts', ('lalr_builder', 'vector'), (('refto', b), ('refto', l)))
        out = []
        for x in self.elements(('refto', l)):
            s = self.num(self.call(x, H, 'conflict_state', ('container',), (('refto', x),)))
            out.append((s, self.decode(self.loc(self.call(x, H, 'conflict_token', ('container',), (('refto', x),))))))
        return out

CLASS = {'ignored': 'lr::ignored_symbols', 'weak': 'lr::weak_symbols', 'precedence': 'lr::precedence_rewriter', 'attributes': 'compiler::conflict_attribute_rewriter', 'lr1': 'lr::lr1_rewriter'}
REWRITE = {'none': r_none, 'ignored': r_ignored, 'weak': r_weak, 'precedence': r_precedence, 'attributes': r_attributes}
ORDER = ('precedence', 'weak', 'attributes', 'ignored')         # as the compiler adds them
def describe(kind, decl):
    if kind == 'chain': return ', then '.join(describe(*x) for x in decl)
    if kind == 'ignored': return 'ignoring ' + ', '.join(show(x) for x in sorted(decl))
    if kind == 'weak': return '; '.join('%s weak for %s' % (', '.join(show(x) for x in sorted(w)), show(s)) for s, w in sorted(decl.items()))
    if kind == 'precedence': return '; '.join('%s {%s}' % (a, ' '.join(show(x) for x in xs)) for a, xs in decl)
    if kind == 'attributes': return '; '.join('[conflict=%s] on item %d of %s' % (h, o + 1, show_rule(r)) for (r, o), h in sorted(decl.items(), key=repr))
    return {'none': 'nothing declared', 'lr1': 'LR(1)'}[kind]

def do(P, job):
    g, decls = job
    ref = Ref(g)
    ref.machine((n(0),))
    d = Conf(P)
    gr = d.grammar(g)
    td = d.new(CF + 'terminal_dictionary')
    d.call(td, H, 'name_symbols', ('terminal_dictionary', 'int', 'int'), (('refto', td), C(10), C(10)))
    b = d.new(B, ('grammar', 'terminal_dictionary'), (('refto', gr), ('refto', td)))
    start = d.num(d.call(b, B, 'add_initial_state', ('container',), (('refto', d.item(n(0))),)))
    d.call(b, B, 'complete_parser')
    of, todo, d0 = {}, [(start, ref.starts[0])], d.fork()
    d, d0 = d0, d                    # d: a parser of which nothing has been asked yet; d0: one whose actions are known
    while todo:
        s, r = todo.pop()
        if s in of:
            if of[s] != r: raise Undecided('the states are not those of the LALR(1) parser')
            continue
        of[s] = r
        got, want = d0.actions(b, s), ref.actions(r)
        if set(got) != set(want): raise Undecided('the actions are not those of the LALR(1) parser')
        for k, m in got.items():
            if m is not None: todo.append((m, want[k]))
    to = {r: s for s, r in of.items()}
    out = []
    for i, (kind, decl) in enumerate(decls):
        whole = kind in ('none', 'chain') or i % 9 == 4
        try: out.append(('ok', one(d.fork() if whole else d0.fork(), whole, ref, g, gr, td, b, of, to, kind, decl, i)))
        except Bad as x: out.append(('bad', kind, '%s (%s; %s)' % (x, describe(kind, decl), show_gram(g))))
        except Problem as x: out.append(('bad', kind, '%s (%s; %s)' % (x.text(P), describe(kind, decl), show_gram(g))))
        except (Undecided, TooComplex) as x: out.append(('unknown', kind, '%s (%s; %s)' % (str(x)[:200], describe(kind, decl), show_gram(g))))
    return out

def one(d, whole, ref, g, gr, td, b, of, to, kind, decl, variant):
    steps = () if kind == 'none' else decl if kind == 'chain' else ((kind, decl),)
    for k, x in steps:
        rw = d.rewriter(k, x, gr, td, variant)
        if whole: d.add(b, rw)
    count, left = 0, set()
    for s, r in sorted(of.items()):
        got = d.actions(b, s) if whole else d.rewritten(b, s, rw, CLASS[kind])
        acts = {k: to[m] if m is not None else None for k, m in ref.actions(r).items()}
        if kind == 'lr1':
            base = acts
            apart = r_lr1(ref, r, acts, decl)
            for x, re in apart:
                w = [k for k in re if weakened(k) in got]
                if len(w) != len(re) - 1 or sum(1 for k in re if k in got) != 1: raise Bad('the reductions for %s, which the states below tell apart, are not made weak but for one' % show(x))
                acts = {(weakened(k) if k in w else k): m for k, m in acts.items()}
            for k in sorted(set(got) - set(acts), key=repr):
                if k[0] == 'act_weakreduce': raise Bad('the conflict of %s is resolved although the states below do not tell the reductions apart' % show_action(k))
            want = acts
        else:
            want = acts
            for k, x in steps: want = REWRITE[k](ref, r, want, x)
        for k in sorted(set(got) ^ set(want), key=repr): raise Bad('in a state the parser %s' % (('can %s where it should not' if k in got else 'cannot %s') % show_action(k)))
        for k, m in want.items():
            if got[k] != m: raise Bad('an action (%s) leads to another state' % show_action(k))
        count += len(want)
        num = {}
        for k in want:
            if k[0] in ('act_shift', 'act_shiftstrong', 'act_reduce'): num[k[1]] = num.get(k[1], 0) + 1
        own = {k[1] for k in ref.actions(r) if k[0] != 'act_guard'}        # not what a weak symbol has from its strong one only
        left |= {(s, x) for x, c in num.items() if c > 1 and x in own}
    if not whole: return count, len(left)
    got = d.conflicts(b)
    maybe = {(s, x) for s, x in got if any(k == 'weak' for k, _ in steps) and (s, x) not in left}
    for s, x in sorted(set(got) ^ left, key=repr):
        if (s, x) in maybe: continue
        raise Bad('a conflict for %s is %s' % (show(x), 'reported where there is none' if (s, x) in got else 'not reported'))
    if len(set(got)) != len(got): raise Bad('a conflict is reported twice')
    return count, len(left)

# ---------------------------------------------------------------------------------------------- cases
OPS = '''S -> S a S | S b S | S c S | d
S -> S a S | b S | c
S -> S a | b S | S c S | d
S -> A; A -> A a A | A b A | c A | d B; B -> e | B e A
S -> a S | a S b S | c
S -> S S | a S | S b | c
S -> S a S b | S b S | c | d S
S -> S a S | b S c S | d
S -> S a S b S | S c S | d'''.split('\n')
MORE = '''S -> A a | B a; A -> c; B -> c
S -> a A d | b B d | a B e | b A e; A -> c; B -> c
S -> a A d | b B d | a B e | b A e | f A d; A -> c; B -> c
S -> a C d | b D d | a D e | b C e; C -> A; D -> B; A -> c; B -> c
S -> a C d; C -> A | B; A -> c; B -> c
S -> A a | B a; A -> ; B -> 
S -> c A a | c B a; A -> | b; B -> 
S -> c C a; C -> A | B; A -> ; B -> | b
S -> a A d | b B d | a E d | b A e | a B e | b E f; A -> c; B -> c; E -> c
S -> a A d | a B d | b E d | c A e | c B e | c E e; A -> f g; B -> f g; E -> f g
S -> A d | B e | a A e | a B d; A -> c; B -> c
S -> a A C d | b B C d | a B e | b A e; A -> c; B -> c; C -> f | 
S -> A S | a; A -> a | b | 
S -> a | A b | a a; A -> a
S -> A b | a c | B d; A -> a; B -> a C; C -> 
S -> A a | A b | c a; A -> c | c a
S -> S a | S b S | c | A ; A -> c | c a
S -> A | B; A -> a; B -> a
S -> [a b] a A | a B; A -> b ; B -> c
S -> A a A | A b ; A -> c | d | 
S -> (a)* A ; A -> a b | b | a
S -> (A a | b)+ ; A -> | b
S -> [a b] c | c A; A -> [d] a | b
S -> A [a b] a | b A a; A -> a | [b] b | '''.split('\n')

def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for gi, s in enumerate(OPS + MORE):
        g = parse(s)
        ref = Ref(g); ref.machine((n(0),))
        rnd = random.Random(gi)
        ts = sorted({x for x in ref.symbols if x[0] == 't'})
        decls = [('none', None), ('lr1', None)]
        k = 40 if deep else 5
        fresh = t('j')
        for _ in range(k):
            decls.append(('ignored', frozenset(rnd.sample(ts + [fresh], rnd.choice((1, 1, 2))))))
            xs = rnd.sample(ts + [fresh], min(len(ts) + 1, rnd.choice((2, 2, 3, 4))))
            if len(xs) == 4: m = {xs[0]: {xs[1]}, xs[2]: {xs[3]}}
            else: m = {xs[0]: set(xs[1:])}
            decls.append(('weak', m))
        # precedence: every rule has at most one operator
        ops = ts
        for _ in range(k + 4 if gi < len(OPS) else 4):
            for _ in range(8):
                lv = []
                xs = rnd.sample(ops, rnd.randint(1, min(4, len(ops))))
                while xs:
                    c = rnd.choice((1, 2)); lv.append((rnd.choice(('left', 'right', 'nonassoc')), tuple(xs[:c]))); xs = xs[c:]
                listed = {x for _, l in lv for x in l}
                if not any(sum(1 for y in b if y in listed) > 1 for _, b in g): decls.append(('precedence', tuple(lv))); break
        spots = [(((('n', l), b), o)) for l, b in g for o, x in enumerate(b) if x[0] == 't']
        for _ in range(k if gi < len(OPS) else k // 2):
            decls.append(('attributes', {sp: rnd.choice(('shift', 'reduce', 'weakreduce')) for sp in rnd.sample(spots, rnd.choice((1, 1, 2)) if len(spots) > 1 else 1)}))
        of_kind = {k: [d for d in decls if d[0] == k] for k in ORDER}
        for _ in range(k // 2):
            ks = rnd.sample([x for x in ORDER if of_kind[x]], min(rnd.choice((2, 2, 3, 4)), sum(1 for x in ORDER if of_kind[x])))
            decls.append(('chain', tuple(rnd.choice(of_kind[x]) for x in ORDER if x in ks)))
        seen, ds = set(), []
        for d in decls:
            if repr(d) not in seen: seen.add(repr(d)); ds.append(d)
        for i in range(0, len(ds), 14): out.append((g, ds[i:i + 14]))
    return out

PROG = None
def work(job):
    try: return do(PROG, job)
    except Bad as x: return [('bad', 'builder', str(x))]
    except Problem as x: return [('bad', 'builder', x.text(PROG))]
    except (Undecided, TooComplex) as x: return [('unknown', 'builder', '%s (%s)' % (str(x)[:200], show_gram(job[0])))]
    except RecursionError: return [('unknown', 'builder', 'recursion')]

WHERE = {'none': 'conflict::find_conflicts', 'ignored': 'ignored_symbols::rewrite_actions', 'weak': 'weak_symbols::rewrite_actions', 'precedence': 'precedence_rewriter::rewrite_actions',
         'attributes': 'conflict_attribute_rewriter::rewrite_actions', 'lr1': 'lr1_rewriter::rewrite_actions', 'chain': 'rewriters in a row', 'builder': 'lalr_builder'}
def run(P, ctx):
    global PROG
    PROG = P
    done = {}
    js = jobs(ctx.tier)
    for job, res in zip(js, pmap(work, js, 1)):
        for i, r in enumerate(res):
            if r[0] == 'ok':
                done[job[1][i][0]] = done.get(job[1][i][0], 0) + 1
                ctx.count('actions_compared', r[1][0]); ctx.count('conflicts_left', r[1][1]); ctx.ok()
            elif r[0] == 'unknown': ctx.unknown('%s: %s' % (WHERE[r[1]], r[2]))
            else: ctx.bad(WHERE[r[1]], r[2])
    for k in WHERE:
        if k == 'builder': continue
        ctx.count('declarations_' + k, done.get(k, 0))
        ctx.need(done.get(k, 0), 3, 'declarations of kind ' + k)
