"""C06 - a regular expression accepts exactly the texts it describes.

Regular expressions are drawn from a grammar of their syntax, so that what each describes is known from how it was made and not from reading
it; the code's own compiler turns them into an automaton in the exact domain, and that automaton is compared with one made directly from the
structure, symbol by symbol of the partition their sets make, for all texts."""
import copy, itertools, random
from absint import C
from drive import Undecided, Problem, find
from parallel import pmap
from c04 import Aut, Bad, compare, guard, N, result
import c04

R = 'dfa::ndfa_regex'
STR = ('str_t',)
TOP = 0x7fffffff

class Rx(Aut):
    def string(self, s):
        l = ('O', 'str#%d' % self.n); self.n += 1
        self.st.store[l] = ('vec', tuple(C(x) for x in s)) if s else ('empty',)
        return ('refto', l)
    def text(self, s): return self.string([ord(c) if isinstance(c, str) else c for c in s])

# ---- what a regular expression means: ('sym', ranges), ('seq', [..]), ('alt', [..]), ('star' | 'plus' | 'opt', x), each with its text
def lit(text, lo, hi=None): return ('sym', text, ((lo, (lo if hi is None else hi) + 1),))
def invert(rs):
    out, at = [], 0
    for a, b in sorted(rs):
        if a > at: out.append((at, a))
        at = max(at, b)
    out.append((at, TOP))
    return tuple(out)
def seq(xs): return ('seq', ''.join(x[1] if x[0] != 'alt' else '(%s)' % x[1] for x in xs), xs)
def alt(xs): return ('alt', '|'.join(x[1] for x in xs), xs)
def group(x): return ('seq', '(%s)' % x[1], [x])
def rep(kind, x):
    t = x[1] if x[0] == 'sym' or x[0] == 'seq' and x[1].startswith('(') and len(x[2]) == 1 or x[0] == 'name' else '(%s)' % x[1]
    return (kind, t + {'star': '*', 'plus': '+', 'opt': '?'}[kind], x)
def name(n, x): return ('name', '{%s}' % n, x)

def surrogates(rs):
    """sequences of ranges: the UTF-16 spellings of the symbols"""
    out = []
    low = tuple((a, min(b, 0x10000)) for a, b in rs if a < 0x10000)
    if low: out.append((low,))
    for a, b in rs:
        a, b = max(a, 0x10000), min(b, 0x110000)
        x = a
        while x < b:                                      # one entry for each run with the same first half or with all second halves
            h = (x - 0x10000) >> 10
            e = min(b, 0x10000 + ((h + 1) << 10))
            if (x & 0x3ff) == 0 and e == 0x10000 + ((h + 1) << 10):
                h2 = (b - 0x10000) >> 10
                out.append((((0xd800 + h, 0xd800 + h2),), ((0xdc00, 0xe000),)) if h2 > h else None)
                x = 0x10000 + (h2 << 10)
                continue
            out.append((((0xd800 + h, 0xd800 + h + 1),), ((0xdc00 + (x & 0x3ff), 0xdc00 + ((e - 1) & 0x3ff) + 1),)))
            x = e
    return out
class Auto:
    def __init__(self): self.n, self.trans, self.acts, self.sets = 1, set(), {}, [()]
    def state(self): self.n += 1; return self.n - 1
    def edge(self, a, rs, b):
        if rs not in self.sets: self.sets.append(rs)
        self.trans.add((a, self.sets.index(rs), b))
    def add(self, x, a, sur):
        """-> state reached from a after x"""
        k = x[0]
        if k == 'sym':
            b = self.state()
            for ss in (surrogates(x[2]) if sur else [(x[2],)]):
                p = a
                for i, rs in enumerate(ss):
                    q = b if i == len(ss) - 1 else self.state()
                    self.edge(p, rs, q); p = q
            return b
        if k == 'seq':
            for y in x[2]: a = self.add(y, a, sur)
            return a
        if k == 'name': return self.add(x[2], a, sur)
        b = self.state()
        s = self.state()
        self.edge(a, (), s)
        if k == 'alt':
            for y in x[2]:
                t = self.state()
                self.edge(s, (), t)
                self.edge(self.add(y, t, sur), (), b)
            return b
        e = self.add(x[2], s, sur)
        self.edge(e, (), b)
        if k in ('star', 'opt'): self.edge(s, (), b)
        if k in ('star', 'plus'): self.edge(e, (), s)
        return b
    def result(self): return self.n, tuple(sorted(self.trans)), {q: tuple(v) for q, v in self.acts.items()}, self.sets

A, B, D = lit('a', 97), lit('b', 98), lit('c', 99)
ATOMS = [A, B, D, lit('\\n', 10), lit('\\*', 42), lit('\\x41', 0x41), lit('\\u0416', 0x416), lit('\\t', 9), lit('\\(', 40), lit('\\|', 124), lit('\\o101', 0x41), lit('\\102', 0x42), lit('\\\\', 92),
    lit('\\r', 13), lit('\\f', 12), lit('\\e', 27), lit('\\a', 7), lit('\\.', 46), lit('\\[', 91), lit('\\{', 123), lit(']', 93), lit('}', 125), lit('-', 45), lit('^', 94)] + [lit('\\x%X' % c, c) for c in (0x5a, 0x6b, 0x7c, 0xd9, 0xe8, 0xf1, 0x23)] + [lit('\\x%x' % c, c) for c in (0xab, 0xcd, 0xef)] + [lit('\\u%04X' % c, c) for c in (0x12ab, 0x9cde, 0xff01)] + [lit('\\o%o' % c, c) for c in (0o100123,)] + [lit('\\%03o' % c, c) for c in (0o173, 0o65)]
# escapes with fewer digits than they may have: a digit after them would belong to them
SHORT = [lit('\\x4', 4), lit('\\xF', 15)] + [lit('\\o%o' % c, c) for c in (7, 0o77, 0o1234)]
def sets_():
    parts = [('a', 97, 97), ('b', 98, 98), ('a-c', 97, 99), ('b-d', 98, 100), ('0-9', 48, 57), ('\\n', 10, 10), ('\\]', 93, 93), ('\\x41-\\x43', 0x41, 0x43), ('\\-', 45, 45), ('*', 42, 42), ('(', 40, 40), ('.', 46, 46), ('|', 124, 124), ('z-z', 122, 122)]
    out = []
    for n in (1, 2, 3):
        for p in itertools.combinations(parts, n):
            rs = tuple(sorted((a, b + 1) for _, a, b in p))
            t = ''.join(x[0] for x in p)
            out.append(('sym', '[%s]' % t, rs))
            out.append(('sym', '[^%s]' % t, invert(rs)))
    return out
SETS = sets_()
DOT = ('sym', '.', ((0, TOP),))
def small():
    """every way to put two things with repetitions next to each other, after each other in an alternative, and in groups"""
    out = []
    reps = lambda x: [x] + [rep(k, x) for k in ('star', 'plus', 'opt')]
    for x in reps(A):
        out.append(x)
        for y in reps(B):
            out += [seq([x, y]), alt([x, y]), rep('star', seq([x, y])), rep('plus', alt([x, y])), seq([group(alt([x, y])), D]), seq([D, group(alt([x, y]))]), alt([seq([x, D]), seq([D, y])]), seq([rep('opt', seq([x, y])), x]),
                seq([rep('star', alt([x, y])), rep('plus', D)]), alt([x, group(alt([y, D]))]), seq([x, y, x])]
    for k in ('star', 'plus', 'opt'):
        for j in ('star', 'plus', 'opt'):
            out += [rep(k, group(rep(j, A))), rep(k, alt([rep(j, A), seq([B, rep(k, D)])])), seq([rep(j, A), rep(k, seq([rep(j, B), D]))])]
    return out
def draw(r, depth, sets=True):
    if depth == 0:
        z = r.random()
        if z < .55 or not sets: return r.choice((A, B, D, A, B, r.choice(ATOMS)))
        return DOT if z > .95 else r.choice(SETS)
    z = r.random()
    if z < .3: return seq([draw(r, depth - 1, sets) for _ in range(r.choice((2, 2, 3)))])
    if z < .5: return alt([draw(r, depth - 1, sets) for _ in range(r.choice((2, 2, 3)))])
    if z < .85: return rep(r.choice(('star', 'plus', 'opt')), draw(r, depth - 1, sets))
    return group(draw(r, depth - 1, sets))

PROG = None
def make(d, l, x, start, action):
    args = (C(start), d.text(x[1]), ('refto', d.new(c04.ACT, ('int', 'bool'), (C(action), C(0)))))
    d.call(l, R, 'add_regex', ('int', 'basic_string<int', 'accept_action'), args)
def ndfa_for(P, xs, names=(), sur=False):
    """xs = [(regex, start, action)]: -> (drive, location, expected automaton)"""
    d = Rx(P)
    l = d.new(R)
    if not sur: d.call(l, R, 'set_use_surrogates', ('bool',), (C(0),))
    for n, y, literal in names: d.call(l, R, 'define_expression_literal' if literal else 'define_expression', ('basic_string<int', 'basic_string<int'), (d.text(n), d.text(y[1])))
    au = Auto()
    starts = {0: 0}
    for x, s, a in xs:
        if s and s not in starts: starts[s] = au.state(); d.num(d.call(l, N, 'add_state'))
    for x, s, a in xs:
        make(d, l, x, s, a)
        t = au.add(x, starts[s], sur)
        au.acts.setdefault(t, []).append((a, False))
    return d, l, au.result(), starts

def job(P, w):
    what, xs, names, sur = w
    out = []
    fr = find(P, R, 'add_regex', ('int', 'basic_string<int'))
    def f():
        d, l, E, starts = ndfa_for(P, xs, names, sur)
        F = d.read(l)
        for s in starts: compare(E, F, start=starts[s], bstart=s)
    guard(out, P, fr, what, f)
    return out
# ---- case and classes
import unicodedata
OLD = unicodedata.ucd_3_2_0
def both(f, c):
    """c in the other case, where it is one character that already existed when the first versions of the tables were made"""
    if c == 0x130: return 0x69 if f is str.lower else c
    r = f(chr(c))
    return ord(r) if len(r) == 1 and OLD.category(r) != 'Cn' else c
def folded(rs):
    cs = set()
    for a, b in rs:
        if b > 0x600: return None
        for c in range(a, b): cs |= {c, both(str.lower, c), both(str.upper, c)}
    return ranges_of(cs)
def ranges_of(cs):
    out = []
    for c in sorted(cs):
        if out and out[-1][1] == c: out[-1] = (out[-1][0], c + 1)
        else: out.append((c, c + 1))
    return tuple(out)
def fold(x):
    if x[0] == 'sym': return ('sym', x[1], folded(x[2]))
    if x[0] in ('seq', 'alt'): return (x[0], x[1], [fold(y) for y in x[2]])
    return (x[0], x[1], fold(x[2]))
CLASSES = {'letter': 'L', 'letter-uppercase': 'Lu', 'letter-lowercase': 'Ll', 'letter-titlecase': 'Lt', 'letter-modifier': 'Lm', 'letter-other': 'Lo', 'mark': 'M', 'mark-nonspacing': 'Mn', 'mark-spacing': 'Mc', 'mark-enclosing': 'Me',
    'number': 'N', 'number-decimal': 'Nd', 'number-letter': 'Nl', 'number-other': 'No', 'punctuation': 'P', 'punctuation-connector': 'Pc', 'punctuation-dash': 'Pd', 'punctuation-open': 'Ps', 'punctuation-close': 'Pe',
    'punctuation-initial': 'Pi', 'punctuation-final': 'Pf', 'punctuation-other': 'Po', 'symbol': 'S', 'symbol-math': 'Sm', 'symbol-currency': 'Sc', 'symbol-modifier': 'Sk', 'symbol-other': 'So', 'separator': 'Z',
    'separator-space': 'Zs', 'separator-line': 'Zl', 'separator-paragraph': 'Zp', 'control': 'C', 'control-control': 'Cc', 'control-format': 'Cf', 'control-surrogate': 'Cs', 'control-private': 'Co'}
STABLE = None
def stable():
    """category of every character whose category has not changed since the first tables; '' for the others"""
    global STABLE
    if STABLE is None:
        STABLE = []
        for c in range(0x110000):
            a = OLD.category(chr(c))
            STABLE.append(a if a != 'Cn' and c != 0x180e and a == unicodedata.category(chr(c)) else '')
    return STABLE
BLOCKS = 'util::unicode::s_Blocks'
def blocks(P):
    """[(category, ranges)]"""
    t = P.arrays.get(BLOCKS)
    if t is None: raise Undecided('the tables of characters')
    out = []
    for x in t['data']:
        if not isinstance(x, list) or len(x) != 2: raise Undecided('the tables of characters')
        if x[0] == 0: break
        if not isinstance(x[0], dict) or not isinstance(x[1], dict) or x[1].get('g') not in P.arrays: raise Undecided('the tables of characters')
        rs = []
        for a, b in P.arrays[x[1]['g']]['data']:
            if a < 0: break
            rs.append((a, b))
        out.append((x[0]['s'], rs))
    return out
def job_tables(P):
    """the tables put each character in the category it has always had"""
    out = []
    cats = ['']  * 0x110000
    try:
        for k, rs in blocks(P):
            for a, b in rs:
                for c in range(max(a, 0), min(b, 0x110000)):
                    if cats[c] and cats[c] != k: out.append(('bad', BLOCKS, 'U+%04X is in the tables of both %s and %s' % (c, cats[c], k)))
                    cats[c] = k
        wrong = {}
        for c, k in enumerate(stable()):
            if k and cats[c] != k: wrong.setdefault((k, cats[c]), []).append(c)
        for (k, h), cs in sorted(wrong.items()): out.append(('bad', BLOCKS + ':' + k, 'U+%04X%s, which is of the category %s, is %s' % (cs[0], ' (and %d others)' % (len(cs) - 1) if len(cs) > 1 else '', k, 'in the table of ' + h if h else 'in none of the tables')))
        if not out: out.append(('ok', 'categories of characters'))
    except Undecided as x: out.append(('unknown', str(x)))
    for n, f in (('s_UppercaseMap', str.upper), ('s_LowercaseMap', str.lower)):
        t = P.arrays.get('util::unicode::' + n)
        if t is None: out.append(('unknown', n)); continue
        m = {}
        last = -1
        for a, b, to in t['data']:
            if a < last or b <= a: out.append(('bad', n, '%s: the entry for U+%04X is out of order' % (n, a)))
            last = b
            for c in range(a, b): m[c] = to + c - a
        wrong = []
        for c, k in enumerate(stable()):
            if not k: continue
            w = f(chr(c)) if c != 0x130 else chr(0x69) if f is str.lower else chr(c)
            if len(w) == 1 and OLD.category(w) != 'Cn' and f(w) == w and m.get(c, c) != ord(w) and (0x590 > c or c > 0x2000) and not (0x250 <= c < 0x2b0 or c == 0x3f3): wrong.append((c, ord(w)))
        if wrong: out.append(('bad', n, '%s: U+%04X is turned into U+%04X, and not into U+%04X' % (n, wrong[0][0], m.get(wrong[0][0], wrong[0][0]), wrong[0][1])))
        else: out.append(('ok', n))
    return out
def job_class(P, w):
    n, cat, prefix = w
    out = []
    fr = find(P, R, 'add_regex', ('int', 'basic_string<int'))
    def f():
        P2 = copy.copy(P)              # with the first ranges of each table
        P2.arrays = {k: dict(v, data=v['data'][:12] + v['data'][-1:]) if len(v['data']) > 13 and v['data'][-1] == [-1, -1] else v for k, v in P.arrays.items()}
        d = Rx(P2)
        l = d.new(R)
        d.call(l, R, 'set_use_surrogates', ('bool',), (C(0),))
        make(d, l, ('name', '{%s-%s}' % (prefix, n), None), 0, 1)
        m, F, acts, _ = d.read(l)
        at, moves = 0, []
        seen = set()
        while at not in seen:                          # one way from the start to the end
            seen.add(at)
            if len(F[at]) != 1: break
            (y, rs, t), = F[at]
            if rs: moves.append(rs)
            at = t
        if F[at]: raise Undecided('the automaton of a class')
        if len(moves) != 1 or not acts[at]: raise Bad('it is not one symbol of that class')
        want = set()
        for k, rs in blocks(P2):
            if k.startswith(cat): want |= {c for a, b in rs for c in range(a, b)}
        got = moves[0]
        if ranges_of(want) != tuple(got) and set().union(*[range(a, b) for a, b in got if b <= 0x110000]) != want: raise Bad('it accepts other symbols than those of the category %s of the tables' % cat)
    guard(out, P, fr, '/{%s-%s}/' % (prefix, n), f)
    return out
def job_case(P, w):
    x, = w
    out = []
    fr = find(P, R, 'add_regex', ('int', 'basic_string<int'))
    def f():
        d = Rx(P)
        l = d.new(R)
        d.call(l, R, 'set_use_surrogates', ('bool',), (C(0),))
        d.call(l, R, 'set_case_insensitive', ('bool',), (C(1),))
        make(d, l, x, 0, 1)
        au = Auto()
        au.acts.setdefault(au.add(fold(x), 0, False), []).append((1, False))
        compare(au.result(), d.read(l))
    guard(out, P, fr, '/%s/ whatever the case' % ''.join(c if isinstance(c, str) else '\\u%04x' % c for c in x[1]), f)
    return out
def case_jobs(deep):
    W = lambda lo, hi: ('sym', ('[', lo, '-', hi, ']'), ((lo, hi + 1),))
    O = lambda c: ('sym', (c,), ((c, c + 1),))
    out = [O(c) for c in (0x41, 0x5a, 0x61, 0x7a, 0x30, 0x40, 0x5d, 0x60, 0x7e, 0xb5, 0xc0, 0xd7, 0xdf, 0xe0, 0xf7, 0xff, 0x100, 0x101, 0x1c4, 0x1c5, 0x1c6, 0x130, 0x131, 0x178, 0x17f, 0x3b1, 0x3c2, 0x410, 0x44f, 0x451)]
    pts = [0x30, 0x41, 0x43, 0x59, 0x5a, 0x5b, 0x60, 0x61, 0x63, 0x7a, 0x7e, 0xb4, 0xb6, 0xc1, 0xd8, 0xe3, 0xf6, 0xfd, 0x101, 0x102, 0x140, 0x250, 0x391, 0x3b4, 0x3d0, 0x420, 0x455]
    out += [W(a, b) for a, b in itertools.combinations(pts, 2) if b - a < (0xa0 if deep else 0x60) and (deep or a < 0x100 or b % 2)]
    r = random.Random(61)
    T = [lit('a', 97), lit('Z', 90), lit('_', 95), lit('[b-q]', 98, 113), lit('[5-M]', 53, 77), lit('\\xe9', 0xe9)]
    def draw2(k):
        if not k: return r.choice(T)
        return r.choice((lambda: seq([draw2(k - 1), draw2(k - 1)]), lambda: alt([draw2(k - 1), draw2(k - 1)]), lambda: rep(r.choice(('star', 'plus', 'opt')), draw2(k - 1))))()
    out += [draw2(2) for _ in range(200 if deep else 40)]
    return out
def describe(xs, names, sur):
    t = ', '.join('/%s/%s' % (x[1], '' if not s else ' from state %d' % s) for x, s, a in xs)
    if names: t += ' where ' + ', '.join('{%s} is %s' % (n, ('"%s"' if l else '/%s/') % y[1]) for n, y, l in names)
    return t + (' in UTF-16' if sur else '')
def work(w): return job_tables(PROG) if w[0] == 'tables' else (job_class if w[0] == 'class' else job_case if w[0] == 'case' else job)(PROG, w[1:] if w[0] in ('class', 'case') else w)
def jobs_for(deep):
    out = []
    add = lambda xs, names=(), sur=False: out.append((describe(xs, names, sur), xs, names, sur))
    for x in ATOMS + SHORT + SETS[:56 if not deep else None] + [DOT] + small(): add([(x, 0, 1)])
    r = random.Random(6)
    for i in range(900 if deep else 220): add([(draw(r, r.choice((2, 2, 3, 3)), True), 0, 1)])
    for i in range(300 if deep else 60): add([(draw(r, 2), 0, 1), (draw(r, 2), 0, 2)] + ([(draw(r, 1), 0, 3)] if i % 2 else []))
    for i in range(120 if deep else 30): add([(draw(r, 2), 0, 1), (draw(r, 2), 1, 2)])
    for i in range(300 if deep else 60):
        y = draw(r, r.choice((1, 2)), False)
        literal = i % 3 == 0
        if literal: y = seq([A, B] if i % 2 else [B, ('sym', '*', ((42, 43),)), A])
        n = name('x', y)
        x = r.choice([n, seq([n, A]), rep('star', n), rep('plus', n), alt([A, n]), alt([n, rep('star', B)]), seq([rep('opt', n), n]), seq([group(n), D]), rep('star', seq([n, D]))])
        add([(x, 0, 1)], (('x', y, literal),))
    if True:
        pts = [0x41, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x10401, 0x107ff, 0x10800, 0x1f600, 0x10ffff]
        W = lambda lo, hi: ('sym', ('[', lo, '-', hi, ']'), ((lo, hi + 1),))
        for lo, hi in itertools.combinations_with_replacement(pts, 2): out.append(('/[U+%x-U+%x]/ in UTF-16' % (lo, hi), [(W(lo, hi), 0, 1)], (), True))
        for lo in (0x41, 0x10000, 0x1f600): out.append(('/[U+%x]/ in UTF-16' % lo, [(('sym', (lo,), ((lo, lo + 1),)), 0, 1)], (), True))
        out.append(('/./ in UTF-16', [(DOT, 0, 1)], (), True))
        X, Y = lit('\U0001f600', 0x1f600), ('sym', '[\U000103fe-\U00010402]', ((0x103fe, 0x10403),))
        Y2 = ('sym', '[a-\U00010402]', ((97, 0x10403),))
        for z in (X, Y, Y2):
            for x in (seq([A, z, B]), group(seq([A, z, B])), rep('star', seq([A, z])), rep('plus', z), seq([rep('opt', z), A]), alt([z, A]), alt([A, z, B]), group(alt([seq([A, z]), seq([z, B])])), rep('star', group(alt([A, seq([z, D])]))), seq([group(alt([z, A])), group(alt([B, z]))])): add([(x, 0, 1)], (), True)
        for x in (seq([DOT, A]), rep('star', DOT), alt([DOT, seq([A, B])]), rep('opt', DOT)): add([(x, 0, 1)], (), True)
    return out
def run(P, ctx):
    global PROG
    PROG = P
    deep = ctx.tier == 'thorough'
    stable()
    jobs = jobs_for(deep) + [('case', x) for x in case_jobs(deep)]
    jobs.append(('tables',))
    jobs += [('class', n, CLASSES[n], p) for i, n in enumerate(sorted(CLASSES)) for p in (('u', 'uni', 'unicode') if deep else (('u', 'uni', 'unicode')[i % 3],))]
    for w, res in zip(jobs, pmap(work, jobs, 2)):
        ctx.count('regular expressions')
        for r in res:
            if r[0] == 'ok': ctx.ok(r[1])
            elif r[0] == 'unknown': ctx.unknown(r[1])
            else: ctx.bad(r[1], r[2])
    ctx.need(ctx.discharged, 100, 'regular expressions')
