"""C25 - the tables of a parser say what its builder decided.

A builder is known only by the actions it lists for each state; for all lists of a few actions (of every type, on terminals,
nonterminals and the end symbols) the tables made from it are read back through the public operations and compared."""
import itertools
from absint import C, isC, NULL, TooComplex
from drive import Undecided, Problem, find
from gram import Gram, GramInterp, CF, cont
from parallel import pmap
import exact
from facts import Broken

T = 'lr::parser_tables'
TYPES = ('act_shift', 'act_shiftstrong', 'act_reduce', 'act_weakreduce', 'act_accept', 'act_goto', 'act_guard', 'act_ignore')
RANK = {'act_guard': 0, 'act_weakreduce': 1, 'act_shift': 2, 'act_shiftstrong': 2, 'act_reduce': 3}
REDUCES = ('act_reduce', 'act_weakreduce', 'act_accept')
class Bad(Exception): pass

class TabInterp(GramInterp):
    builder = None            # (location of the grammar, [location of the actions of each state])
    def on_call(self, st, e, fn, obj, args):
        cls = (fn or {}).get('cls') or e.get('cls') or ''
        nm = (fn or {}).get('sn') or e.get('mn')
        if cls == 'lr::lalr_builder' and self.builder:
            if nm == 'count_states': return [(st, C(len(self.builder[1])))]
            if nm == 'gram': return [(st, ('refto', self.builder[0]))]
            if nm == 'actions_for_state':
                v = self.argval(st, args[0])
                if not isC(v) or not 0 <= v[1] < len(self.builder[1]): self.problem(st, 'bounds', 'the builder is asked for a state that does not exist', e); return [(st, ('refto', self.builder[1][0]))]
                return [(st, ('refto', self.builder[1][v[1]]))]
        return GramInterp.on_call(self, st, e, fn, obj, args)

class Tabs(Gram):
    INTERP = TabInterp
    def __init__(self, P):
        Gram.__init__(self, P)
        en = P.enums.get('lr::lr_action::action_type')
        self.kinds = {c['n']: c['v'] for c in en['e']} if en else None
        if not self.kinds or any(t not in self.kinds for t in TYPES): raise Broken('anchor vanished: lr_action::action_type')
    def action(self, a):
        """a = (type, item, next state, rule or None)"""
        t, it, nx, ru = a
        types, args = ['action_type', 'container', 'int'], [C(self.kinds[t]), ('refto', self.item(*it)), C(nx)]
        if ru is not None: types.append('container'); args.append(('refto', self.rule(*ru)))
        return self.container(cont(self.P, 'lr::lr_action'), self.new('lr::lr_action', tuple(types), tuple(args)))
    def tables(self, states, weak=None):
        g = self.new(CF + 'grammar')
        for r in (R0, R3): self.num(self.call(g, CF + 'grammar', 'identifier_for_rule', ('container',), (('refto', self.rule(*r)),)))       # the grammar has other rules, too
        sets = []
        cls = 'std::set<%s>' % cont(self.P, 'lr::lr_action')
        for acts in states:
            self.n += 1
            l = ('O', 'actions#%d' % self.n)
            self.st.store[l] = ('empty',)
            self.st.ghost[('type', l)] = cls
            for a in acts: self.insert(l, cls, self.action(a))
            sets.append(l)
        self.gram = g
        self.I.builder = (g, sets)
        w = NULL
        if weak is not None:
            wl = self.new('lr::weak_symbols', ('grammar *',), (('ptr', g),))
            for strong, ws in weak:
                s = self.new(CF + 'item_set', ('grammar *',), (('ptr', g),))
                for x in ws: self.call(s, CF + 'item_set', 'insert', ('container',), (('refto', self.item(*x)),))
                self.call(wl, 'lr::weak_symbols', 'add_symbols', ('container', 'item_set'), (('refto', self.item(*strong)), ('refto', s)))
            w = ('ptr', wl)
        self.blocks0 = self.blocks()
        return self.new(T, ('lalr_builder', 'weak_symbols'), (('refto', ('O', 'builder')), w))
    def blocks(self): return {k[1] for k in self.st.ghost if k[0] == 'etype'}
    def destroy(self, l):
        try: r = self.I.destroy(self.st, l, T)
        except TooComplex as x: raise Undecided(str(x)[:150])
        except exact.Problem as x: raise Problem(x.args[0])
        if len(r) != 1: raise Undecided('%d outcomes of the destructor' % len(r))
        self.st = r[0]
        if self.st.ghost.get('problem'): raise Problem(self.st.ghost['problem'])
    # ---- reading tables back
    def field(self, it, n):
        d = self.I.cell(self.st, it, {'l': 0, 'k': '', 't': ''})
        if d is None: raise Undecided('an entry of a table')
        v = self.I.read(self.st, ('fld', d, n))
        if v[0] == 'uninit': raise Bad('an entry has no %s' % n)
        if not isC(v): raise Undecided('%s of an entry' % n)
        return v[1]
    def entry(self, it): return self.field(it, 'symbolId'), self.field(it, 'type'), self.field(it, 'nextState')
    def at(self, v):
        v = self.val(v)
        if v[0] != 'it' or not isC(v[2]): raise Undecided('position in a table')
        return v
    def check(self, t, want):
        """want = (states, weak, eoi, eog); states = [(terminal entries, nonterminal entries)] with entries (symbol, type name, next | rule)"""
        d = self.fork()
        states, weak, eoi, eog = want
        def bad(x): raise Bad(x)
        if d.num(d.call(t, T, 'count_states')) != len(states): bad('the number of states is wrong')
        if d.num(d.call(t, T, 'end_of_input')) != eoi: bad('the end of input has another identifier')
        if d.num(d.call(t, T, 'end_of_guard')) != eog: bad('the end of a guard has another identifier')
        seen = set()
        for s, kinds in enumerate(states):
            for kind, ents in zip(('terminal', 'nonterminal'), kinds):
                end = d.at(d.call(t, T, 'last_%s_action' % kind, ('int',), (C(s),)))
                first = d.at(d.call(t, T, 'find_' + kind, ('int', 'int'), (C(s), C(-1 << 30))))
                if first[1] != end[1] or end[2][1] - first[2][1] != len(ents): bad('state %d has %s entries for %d %s actions' % (s, end[2][1] - first[2][1] if first[1] == end[1] else 'other', len(ents), kind))
                got = []
                for i in range(first[2][1], end[2][1]): got.append(d.entry(('it', first[1], C(i))))
                left = list(ents)
                for sy, ty, nx in got:
                    for w in left:
                        if w[0] != sy or d.kinds[w[1]] != ty: continue
                        if w[1] in REDUCES:
                            if d.rule_at(t, nx) != w[2]: continue
                            seen.add(nx)
                        elif w[2] != nx: continue
                        left.remove(w); break
                    else: bad('an entry of state %d is no action of the builder (%s action, symbol %d, type %d, next %d)' % (s, kind, sy, ty, nx))
                names = {v: k for k, v in d.kinds.items()}
                keys = [(sy, RANK.get(names.get(ty), 9)) for sy, ty, nx in got]
                if [k[0] for k in keys] != sorted(k[0] for k in keys): bad('the %s actions of state %d are not in the order of their symbols' % (kind, s))
                for x, y in zip(keys, keys[1:]):
                    if x[0] == y[0] and x[1] > y[1]: bad('the actions of state %d for symbol %d are in the wrong order' % (s, x[0]))
                syms = sorted({k[0] for k in keys})
                for q in syms + [x + 1 for x in syms] + [0]:
                    p = d.at(d.call(t, T, 'find_' + kind, ('int', 'int'), (C(s), C(q))))
                    w = sum(1 for k in keys if k[0] < q)
                    if p[1] != first[1] or p[2][1] - first[2][1] != w: bad('looking up %s %d in state %d finds another entry' % (kind, q, s))
            n = d.num(d.call(t, T, 'count_actions_for_state', ('int',), (C(s),)))
            if n != len(kinds[0]) + len(kinds[1]): bad('state %d is said to have %d actions' % (s, n))
            r = bool(d.num(d.call(t, T, 'has_end_of_guard', ('int',), (C(s),))))
            if r != any(e[0] == eog for e in kinds[1]): bad('state %d is %s to have an action for the end of a guard' % (s, 'said' if r else 'not said'))
        for w in list(weak) + [max([x for p in weak.items() for x in p] + [50]) + 7]:
            r = d.num(d.call(t, T, 'strong_for_weak', ('int',), (C(w),)))
            if r != weak.get(w, w): bad('the strong symbol of %d is %d' % (w, r))
        if seen and max(seen) >= d.num(d.call(t, T, 'count_reduce_rules')): bad('the rules are not counted')
    def rule_at(self, t, i):
        n = self.num(self.call(t, T, 'count_reduce_rules'))
        if not 0 <= i < n: return None
        l = self.loc(self.call(t, T, 'rule', ('int',), (C(i),)))
        out = []
        for k in ('identifier', 'ruleId', 'length'):
            v = self.I.read(self.st, ('fld', l, k))
            if v[0] == 'uninit': raise Bad('a rule has no %s' % k)
            if not isC(v): raise Undecided(k + ' of a rule')
            out.append(v[1])
        return tuple(out)
    def want(self, states, weak):
        out = []
        for acts in states:
            ks = ([], [])
            for t, it, nx, ru in acts:
                term = it[0] == 'terminal'
                if t in REDUCES:
                    r = self.rule(*ru)
                    nx = (self.ident(self.gram, ru[0]), self.num(self.call(self.gram, CF + 'grammar', 'identifier_for_rule', ('container',), (('refto', r),))), len(ru[1]))
                ks[0 if term else 1].append((it[1] if term else self.ident(self.gram, it), t, nx))
            out.append(ks)
        w = {x[1]: s[1] for s, ws in weak or () for x in ws}
        return out, w, self.ident(self.gram, ('end_of_input',)), self.ident(self.gram, ('end_of_guard',))

def tm(i): return ('terminal', i)
def nt(i): return ('nonterminal', i)
R1 = (nt(5), (tm(3), tm(4)))
R2 = (nt(6), (nt(5),))
R3 = (nt(6), ())
R0 = (nt(7), (tm(1), nt(6)))
EOI, EOG = ('end_of_input',), ('end_of_guard',)
# actions a state may have
ALPHA = [('act_shift', tm(3), 2, None), ('act_weakreduce', tm(3), -1, R2), ('act_reduce', tm(3), -1, R1), ('act_reduce', tm(3), -1, R3), ('act_shiftstrong', tm(40), 1, None),
         ('act_goto', nt(6), 1, None), ('act_goto', nt(5), 2, None), ('act_accept', EOI, -1, R2), ('act_reduce', EOG, -1, R1), ('act_guard', tm(3), 2, None), ('act_guard', tm(4), 1, None),
         ('act_ignore', tm(1), 0, None), ('act_reduce', EOI, -1, R1), ('act_shift', tm(3), 1, None), ('act_weakreduce', EOG, -1, R3)]
WEAK = [None, [], [(tm(3), (tm(9), tm(4)))], [(tm(3), (tm(40),)), (tm(1), (tm(7), tm(2)))]]

OTHER = [([[ALPHA[0], ALPHA[8]]], [(tm(3), (tm(8), tm(12), tm(13)))]), ([[ALPHA[5]], [], [ALPHA[8]], [ALPHA[2]]], None)]

def show(states): return ' | '.join(', '.join('%s %s%s -> %s' % (t[4:], it[0], list(it[1:]) or '', nx if ru is None else 'rule') for t, it, nx, ru in s) or 'nothing' for s in states)

def scenarios(thorough):
    out = []
    pairs = list(itertools.combinations(range(len(ALPHA)), 2))
    for i, p in enumerate(pairs):
        s = [ALPHA[x] for x in p]
        k = i % 4
        other = [ALPHA[(p[0] + p[1] + 3) % len(ALPHA)]]
        out.append(([s] if k == 0 else [other, s] if k == 1 else [s, [], other] if k == 2 else [[], s, s[:1] + other], WEAK[(i // 4) % 4]))
    trip = list(itertools.combinations(range(len(ALPHA)), 4))
    step = 3 if thorough else 61
    for i, p in enumerate(trip[::step]): out.append(([[ALPHA[x] for x in p]] if i % 2 else [[ALPHA[p[0]]], [ALPHA[x] for x in p]], WEAK[i % 4]))
    out.append(([ALPHA, ALPHA[5:], ALPHA[:5]], WEAK[3]))
    out.append(([], None))
    return [([[a for i, a in enumerate(s) if a not in s[:i]] for s in ss], w) for ss, w in out]

def one(a):
    P, states, weak = a
    n = [0, 0]
    what = 'actions %s%s' % (show(states), '' if not weak else ', weak symbols %s' % ['%s of %s' % ([x[1] for x in ws], s[1]) for s, ws in weak])
    out = []
    d = Tabs(P)
    stage = 'making the tables'
    loc = 'lr::parser_tables::parser_tables'
    try:
        t = d.tables(states, weak)
        want = d.want(states, weak)
        d.check(t, want); n[0] += 1
        base = d
        mine = set()
        for stage in ('copying the tables', 'assigning the tables', 'assigning the tables to themselves'):
            d = base.fork()
            loc = 'lr::parser_tables::operator='
            if stage.startswith('copy'):
                loc = 'lr::parser_tables::parser_tables'
                u = d.new(T, ('parser_tables',), (('refto', t),))
            elif stage.endswith('themselves'):
                u = t
                d.call(t, T, 'operator=', ('parser_tables',), (('refto', t),))
            else:
                b0 = d.blocks()
                u = d.tables(*OTHER[len(states) % 2])
                mine = d.blocks0 - b0
                d.call(u, T, 'operator=', ('parser_tables',), (('refto', t),))
            d.check(u, want)
            if u != t:
                stage += ' and releasing the original'
                d.destroy(t)
                d.check(u, want)
            n[0] += 1
            stage = 'releasing the tables'
            d.destroy(u)
            left = [a for a in d.blocks() - base.blocks0 - mine if ('dead', a) not in d.st.ghost]
            if left: raise Bad('%d arrays are never released' % len(left))
        loc = 'lr::parser_tables::parser_tables'
        stage = 'making tables of arrays (as a generated parser does)'
        d = base.fork()
        args = [d.call(t, T, m) for m in ('count_states', 'end_of_input', 'end_of_guard', 'terminal_actions', 'nonterminal_actions', 'action_counts', 'end_of_guard_states', 'count_end_of_guards',
                                          'count_reduce_rules', 'reduce_rules', 'count_weak_to_strong', 'weak_to_strong')]
        u = d.new(T, ('int', 'int', 'int', 'action **', 'action **', 'action_count *', 'int *', 'int', 'int', 'reduce_rule *', 'int', 'symbol_equivalent *'), tuple(args))
        d.check(u, want)
        stage = 'copying tables made of arrays'
        w = d.new(T, ('parser_tables',), (('refto', u),))
        x = d.new(T, ('parser_tables',), (('refto', w),))
        stage = 'assigning tables made of arrays'
        d.call(x, T, 'operator=', ('parser_tables',), (('refto', u),))
        d.call(u, T, 'operator=', ('parser_tables',), (('refto', x),))
        d.check(u, want)
        d.destroy(u)
        d.check(t, want); d.check(w, want); d.check(x, want)
        for stage, l in (('releasing the copy', w), ('releasing the assigned tables', x), ('releasing the original', t)): d.destroy(l)
        left = [a for a in d.blocks() - base.blocks0 - mine if ('dead', a) not in d.st.ghost]
        if left: raise Bad('%d arrays are never released' % len(left))
        n[0] += 1
        return n, out
    except Bad as x: out.append(('bad', loc, '%s: after %s: %s' % (what, stage, x)))
    except Problem as x: out.append(('bad', x.p[2] or loc, '%s: %s: %s' % (what, stage, x.text(P))))
    except Undecided as x: out.append(('unknown', loc, '%s: %s: %s' % (what, stage, x)))
    return n, out


PROG = None
def work(job): return one((PROG,) + job)

def run(P, ctx):
    global PROG
    PROG = P
    ctx.explanation = ('For all lists of a few actions of a builder - of every type, on terminals, nonterminals and the symbols for the end of the input and of guards - and several '
        'maps of weak symbols, the tables made from them, their copies and assigned tables are read back through every public operation and compared with the actions; every array is released exactly once.')
    ctx.assumptions = ['the builder is known only by the actions it lists', 'divert actions, which nothing creates, are left out']
    jobs = scenarios(ctx.tier == 'thorough')
    for n, out in pmap(work, jobs, 2):
        ctx.count('lists of actions')
        for _ in range(n[0]): ctx.ok()
        for kind, loc, text in out:
            if kind == 'bad': ctx.bad(loc, text)
            else: ctx.unknown(text)
    ctx.need(ctx.discharged, 50, 'tables')
