"""C17 - tokenising: longest match, best action, nothing lost.

The token stream of a lexer is evaluated over an abstract environment: the input is a sequence of distinct unknown
symbols, and the automaton is reduced to the outcome of each step (dead, alive, alive and accepting).  Every
behaviour of the automaton over inputs of up to four symbols is enumerated; for each the tokens produced - content,
matched symbol, position - must be the ones the maximal munch rule prescribes, and concatenated they must be the input."""
import itertools
from absint import Interp, State, C, isC, TooComplex, NULL, INF, ladd
from model import walk
from facts import Broken
import c01, c05

EOI = 0x7fffffff

class LexInterp(Interp):
    STRICT = True
    MAXDEPTH = 10
    UNROLL = 40
    EXACT = True
    def __init__(self, P):
        Interp.__init__(self, P)
        self.limit = 200000
    def on_call(self, st, e, fn, obj, args):
        cls, mn, op = e.get('cls', ''), e.get('mn', ''), e.get('op')
        if op == '>>' and args and 'lexer_symbol_stream' in cls:
            n = st.ghost.get('read', 0)
            st.ghost['read'] = n + 1
            if args[0][0] != 'refto': return None
            self.write(st, args[0][1], self.input[n] if n < len(self.input) else C(self.eoi))
            return [(st, ('refto', obj))]
        if 'dfa::state_machine<' in cls and len(args) == 2 and mn in ('run', 'run_unsafe', 'operator()'):
            s, sym = self.argval(st, args[0]), self.argval(st, args[1])
            k = st.ghost.get('steps', 0)
            if s != st.ghost.get('cur', self.first): st.ghost['err'] = 'the automaton is run from a state it is not in'
            base = st.ghost.get('base', 0)
            if base + k >= len(self.input) or sym != self.input[base + k]:
                st.ghost['err'] = 'symbol %s of the token is not the symbol of the input at that place' % (k + 1)
            out = self.script[k] if k < len(self.script) else 'D'
            st.ghost['steps'] = k + 1
            if out == 'D': r = C(-1)
            else: r = C(100 + 2 * k + (1 if out == 'A' else 0))
            st.ghost['cur'] = r
            return [(st, r)]
        return None
    def read(self, st, loc):
        # the accept table: automaton states 100+2k are not accepting, 101+2k accept symbol 1000+k
        if loc[0] == 'fld' and loc[1] == ('O', 'accept') and loc[2][0] == '[]' and isC(loc[2][1]):
            n = loc[2][1][1]
            return C(1000 + (n - 100) // 2) if n >= 100 and n % 2 else C(-1)
        return Interp.read(self, st, loc)

def end_of_input(P):
    for g in ('dfa::symbol_set::end_of_input',):
        v = P.globals.get(g)
        if v and 'v' in v: return v['v']
    for f in P.fns.values():
        for n in walk(f['body']):
            if n['k'] in ('global', 'enum') and n.get('n', '').endswith('end_of_input') and 'v' in n: return n['v']
    return EOI

def scripts(n):
    """outcomes of the automaton over at most n symbols: stops at the first dead step"""
    out = []
    for k in range(n + 1):
        for body in itertools.product('LA', repeat=k):
            if k < n: out.append(body + ('D',))
            else: out.append(body)
    return out

def check_stream(P, ctx, fn, ctor, first_state, newline_state, nmax):
    I = LexInterp(P)
    I.eoi = end_of_input(P)
    bad = False
    runs = 0
    cls = fn['cls']
    seqs = [(n, None) for n in range(0, nmax + 1)]
    if newline_state: seqs += [(2, c) for c in sorted(c05.NEWLINES)]
    for n, nl in seqs:
        I.input = [('init', ('O', 'sym%d' % i)) for i in range(n)]
        if nl is not None: I.input[0] = C(nl)
        # histories: sequences of calls, depth first
        st = State()
        for i in range(n):
            t = (('init', ('O', 'sym%d' % i)), 1)
            st.iv[(t,)] = (14, 132)
        I.first = C(0)
        st.ghost['base'] = 0
        this = ('O', 'stream')
        res = I.run(ctor, st, this, [('refto', ('O', 'machine')) if ctor['params'][0]['ti'].get('ref') else ('rec', ('O', 'machine')), ('ptr', ('O', 'accept')), ('ptr', ('O', 'input'))])
        if len(res) != 1: raise Broken('constructor of the token stream not understood')
        todo = [(res[0][0], 0, C(first_state), ())]
        while todo:
            s0, base, first, hist = todo.pop()
            rest = I.input[base:]
            for script in (scripts(len(rest)) if len(hist) < 2 else [('A',) * len(rest)]):
                I.script, I.first = script, first
                s = s0.copy()
                s.ghost['base'], s.ghost['steps'] = base, 0
                s.ghost.pop('cur', None); s.ghost.pop('err', None)
                slot = ('O', 'result')
                s.store[slot] = ('init', ('O', 'old result'))
                try: outs = I.run(fn, s, this, [('refto', slot)])
                except TooComplex: ctx.unknown('%s: %s' % (P.where(fn), script)); continue
                runs += 1
                live = [x for x in script if x != 'D']
                k = max([i + 1 for i, x in enumerate(script) if x == 'A'], default=0)
                want_k, want_sym = (k, C(999 + k)) if k else (1, C(-1))
                desc = 'input of %d symbols, %d already read, automaton %s' % (n, base, ' '.join({'A': 'accepts', 'L': 'continues', 'D': 'stops'}[x] for x in script) or 'never runs')
                def bad1(key, msg):
                    ctx.bad('%s:%s' % (cls.split('<')[0] + '::' + fn['sn'], key), '%s: %s (%s)' % (P.where(fn), msg, desc))
                for s2, v in outs:
                    r = I.read(s2, slot)
                    if not rest:
                        if r != NULL: bad1('end', 'a token is produced at the end of the input'); bad = True
                        continue
                    if s2.ghost.get('err'): bad1('steps', s2.ghost['err']); bad = True; continue
                    if r == NULL: bad1('lost', 'no token although there is input left'); bad = True; continue
                    if r[0] != 'ptr': ctx.unknown(desc); continue
                    L = r[1]
                    content = I.run(c05.method(P, 'dfa::lexeme', 'content', 0), s2.copy(), L, [])
                    cv = I.argval(content[0][0], content[0][1])
                    cl = I.listof(content[0][0], cv)
                    m = I.run(c05.method(P, 'dfa::lexeme', 'matched', 0), s2.copy(), L, [])
                    mv = I.argval(m[0][0], m[0][1])
                    if cl is None: ctx.unknown(desc); continue
                    if list(cl) != rest[:want_k]:
                        bad1('content', 'the token has %s symbols and should be the first %d of the remaining input' % (len(cl), want_k)); bad = True; continue
                    if mv != want_sym: bad1('symbol', 'the token is labelled %s instead of %s' % (mv[1] if isC(mv) else '?', 'unrecognised (-1)' if want_sym == C(-1) else 'the action of the longest match')); bad = True; continue
                    pr = I.run(c05.method(P, 'dfa::lexeme', 'pos', 0), s2.copy(), L, [])
                    ps, pv = pr[0]
                    ploc = pv[1] if pv[0] in ('refto', 'rec') else None
                    if ploc is not None and nl is None:
                        got = []
                        for a in ('offset', 'line', 'column'):
                            rr = I.run(c05.method(P, 'dfa::position', a, 0), ps.copy(), ploc, [])
                            got.append(I.argval(rr[0][0], rr[0][1]))
                        if got != [C(base), C(0), C(base)]:
                            bad1('position', 'the token starts at offset %d but its position says offset %s, line %s, column %s' % tuple([base] + [x[1] if isC(x) else '?' for x in got])); bad = True; continue
                    nf = C(0)
                    if newline_state and nl is not None and base == 0 and want_k == 1: nf = C(newline_state)
                    if len(hist) < 3: todo.append((s2, base + want_k, nf, hist + (script,)))
    if not bad: ctx.ok('%s: %d abstract behaviours' % (P.where(fn), runs))
    ctx.count('behaviours', runs)

class ActInterp(c01.OrdInterp):
    STRICT = True
    MAXDEPTH = 8
    def tok(self, st, x):
        return c01.OrdInterp.tok(self, st, x)

def check_priority(P, ctx):
    """of the actions of one state, the highest ranked decides the symbol"""
    fns = [f for f in P.fns.values() if f['sn'] == 'fill_accept' and len(f['params']) == 3]
    n = 0
    for f in fns:
        I = ActInterp(P, '')
        good = True
        for k in range(0, 4):
            for perm in set(itertools.permutations(range(1, k + 1))) | ({(2, 2, 1), (1, 2, 2), (2, 1, 2)} if k == 3 else set()):
                st = State()
                cont, tgt = ('O', 'actions'), ('O', 'target')
                st.store[cont] = ('vec', tuple(('tok', 'action', i) for i in perm))
                def it(k, p): return ('refto', I.temp(st, ('it', cont, C(k)))) if p['ti'].get('ref') else ('it', cont, C(k))
                try: outs = I.run(f, st, ('O', 'lexer'), [('refto', tgt), it(0, f['params'][1]), it(len(perm), f['params'][2])])
                except TooComplex: outs = []
                if not outs: ctx.unknown('%s %s' % (P.where(f), perm)); good = None; continue
                for s, _ in outs:
                    v = s.store.get(tgt)
                    if v is None: good = False; ctx.bad('fill_accept:unset', '%s: no symbol stored for a state with %d actions' % (P.where(f), len(perm))); continue
                    if not perm: want = v == C(-1)
                    else: want = v[0] == 'tok' and v[2] == max(perm)
                    if not want:
                        good = False
                        ctx.bad('fill_accept:rank', '%s: with actions ranked %s the symbol of %s is used' % (P.where(f), list(perm), 'the one ranked %d' % v[2] if v[0] == 'tok' else v))
                n += 1
        if good: ctx.ok('%s picks the highest ranked action in every order' % P.where(f))
    ctx.count('action_orders', n)
    return len(fns)

def lexeme_parts(P, I, st, L):
    """(content, matched, (offset, line, column)) through the accessors"""
    content = I.run(c05.method(P, 'dfa::lexeme', 'content', 0), st.copy(), L, [])
    cl = I.listof(content[0][0], I.argval(content[0][0], content[0][1]))
    m = I.run(c05.method(P, 'dfa::lexeme', 'matched', 0), st.copy(), L, [])
    ps, pv = I.run(c05.method(P, 'dfa::lexeme', 'pos', 0), st.copy(), L, [])[0]
    got = []
    for a in ('offset', 'line', 'column'):
        rr = I.run(c05.method(P, 'dfa::position', a, 0), ps.copy(), pv[1], [])
        got.append(I.argval(rr[0][0], rr[0][1]))
    return cl, I.argval(m[0][0], m[0][1]), tuple(got)

def check_character_lexer(P, ctx, fn, ctor):
    """a lexer without an automaton: one token per symbol, labelled with the symbol"""
    I = LexInterp(P)
    I.eoi = end_of_input(P)
    I.input = [('init', ('O', 'sym%d' % i)) for i in range(3)]
    st = State()
    for i in range(3): st.iv[((('init', ('O', 'sym%d' % i)), 1),)] = (14, 132)
    this, slot = ('O', 'stream'), ('O', 'result')
    st = I.run(ctor, st, this, [('ptr', ('O', 'input'))])[0][0]
    for i in range(5):
        st.store[slot] = ('init', ('O', 'old result'))
        outs = I.run(fn, st, this, [('refto', slot)])
        if len(outs) != 1: ctx.unknown(P.where(fn)); return
        st = outs[0][0]
        r = I.read(st, slot)
        if i >= 3:
            if r != NULL: ctx.bad('character_lexer:end', '%s: a token is produced at the end of the input' % P.where(fn)); return
            continue
        if r[0] != 'ptr': ctx.bad('character_lexer:lost', '%s: no token for symbol %d' % (P.where(fn), i)); return
        cl, m, pos = lexeme_parts(P, I, st, r[1])
        if cl != (I.input[i],) or m != I.input[i]: ctx.bad('character_lexer:content', '%s: the token for a symbol does not consist of, or is not labelled with, that symbol' % P.where(fn)); return
        if pos != (C(i), C(0), C(i)): ctx.bad('character_lexer:position', '%s: the token of symbol %d is not at its position' % (P.where(fn), i)); return
    ctx.ok('%s: one token per symbol' % P.where(fn))
    ctx.count('behaviours', 5)

class SourceInterp(Interp):
    STRICT = True
    """a character source: delivers a character, then says whether that worked"""
    def on_call(self, st, e, fn, obj, args):
        mn = e.get('mn')
        if mn == 'get' and args and args[0][0] == 'refto':
            st.ghost['got'] = st.ghost.get('got', 0) + 1
            if self.ok: self.write(st, args[0][1], ('init', ('O', 'character')))
            return [(st, ('refto', obj) if obj else C(0))]
        if mn == 'good' or (e.get('conv') and 'bool' in e.get('t', '')):
            return [(st, C(1 if self.ok and st.ghost.get('got') else 0))]
        if mn in ('eof', 'fail', 'bad', 'operator!'): return [(st, C(0 if self.ok and st.ghost.get('got') else 1))]
        return None

def check_sources(P, ctx):
    """symbol sources deliver the character they read, and the end of input exactly when reading fails"""
    k = 0
    for f in sorted(P.fns.values(), key=lambda f: f['name']):
        if f.get('op') != '>>' or len(f['params']) != 1 or f['params'][0]['ti']['t'] != 'int &' or 'stream_stream<' not in f['name']: continue
        k += 1
        for ok in (True, False):
            I = SourceInterp(P); I.ok = ok
            st = State(); slot = ('O', 'result')
            for s, v in I.run(f, st, ('O', 'source'), [('refto', slot)]):
                got = s.store.get(slot)
                want = ('init', ('O', 'character')) if ok else C(end_of_input(P))
                if got != want:
                    ctx.bad('source:' + ('read' if ok else 'end'), '%s: %s' % (P.where(f), 'the symbol delivered is not the character read' if ok else 'a failed read is not reported as the end of the input'))
                else: ctx.ok()
    ctx.count('symbol_sources', k)

def run(P, ctx):
    ctx.explanation = 'Abstract interpretation of the token streams over every automaton behaviour (dead / alive / accepting per step) for inputs of up to 3 unknown symbols (4 when thorough) and histories of calls; action choice checked for every order of ranks.'
    ctx.assumptions = ['the automaton run by the stream is a function of state and symbol', 'inputs longer than the bound behave like shorter ones (the code has no other dependence on length)']
    nmax = 4 if ctx.tier == 'thorough' else 3
    done = set()
    k = 0
    for f in sorted(P.fns.values(), key=lambda f: f['name']):
        if f.get('op') != '>>' or len(f['params']) != 1 or 'lexeme *' not in f['params'][0]['ti']['t']: continue
        cls = f['cls']
        ctors = [c for c in P.methods_of.get(cls, []) if c.get('kind') == 'ctor' and len(c['params']) == 3]
        c1 = [c for c in P.methods_of.get(cls, []) if c.get('kind') == 'ctor' and len(c['params']) == 1]
        if not ctors:
            if c1: check_character_lexer(P, ctx, f, c1[0]); k += 1
            continue
        import re
        m = re.match(r'dfa::dfa_lexer_base<.*, (\d+), (\d+), (?:true|false), .*>::dfa_stream$', cls)
        nl = int(m.group(2)) if m else 0
        first = int(m.group(1)) if m else 0
        sig = (first, nl)
        if sig in done and ctx.tier != 'thorough': continue
        done.add(sig)
        check_stream(P, ctx, f, ctors[0], first, nl, nmax)
        k += 1
    ctx.count('token_streams', k)
    p = check_priority(P, ctx)
    check_sources(P, ctx)
    ctx.need(k, 1, 'token streams')
    ctx.need(ctx.counts.get('behaviours', 0), 40, 'automaton behaviours')
    ctx.need(p, 1, 'action selections')
