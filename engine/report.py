"""Verdicts, known findings, evidence."""
import os, sys, signal, json, time, re, traceback
import facts
from facts import Broken, VERIF

class OutOfTime(BaseException): pass

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = {}
        self.obligations = 0
        self.discharged = 0
        self.undetermined = []
        self.samples = []
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.explanation = ''
        self.level = 'other'
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def ok(self, what=None):
        self.obligations += 1; self.discharged += 1
        if what and len(self.samples) < 12: self.samples.append(what)
    def unknown(self, what):
        self.obligations += 1
        if len(self.undetermined) < 40: self.undetermined.append(what)
        self.count('undetermined')
    def bad(self, key, msg):
        """key: stable identity of the failing construct; msg: diagnosis with file:line"""
        self.obligations += 1
        if key not in self.violations: self.violations[key] = msg
    def need(self, n, minimum, what):
        if n < minimum and not self.violations and not (self.undetermined and self.discharged): raise Broken('only %d %s analysed (at least %d confirmed by hand)' % (n, what, minimum))

def known():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', line.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

def main(prop, run):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    EV = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    ev = os.path.join(EV, prop + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        import model, absint
        F = facts.load()
        P = model.Program(F)
        ctx.count('translation_units', len(F['units']))
        ctx.count('functions_extracted', len(F['functions']))
        ctx.count('classes_extracted', len(F['records']))
        def late(*a): raise OutOfTime()
        signal.signal(signal.SIGALRM, late); signal.alarm(780 if tier == 'quick' else 6 * 3600)
        try: run(P, ctx)
        except OutOfTime:
            ctx.unknown('the analysis ran out of time: what it had not reached by then was not decided')
            ctx.need(ctx.discharged, 1, 'obligations before the time ran out')
        except (absint.TooComplex, RecursionError, LookupError, TypeError, ValueError, AttributeError) as x:
            if os.environ.get('VERIF_DEBUG'): raise
            ctx.unknown('the analysis stopped at a construct it does not cover (%s: %s)' % (type(x).__name__, str(x)[:200]))
            if not ctx.violations and not ctx.discharged: traceback.print_exc(); raise Broken('nothing could be decided')
        finally: signal.alarm(0)
    except Broken as b:
        print('ANALYSIS BROKEN property=%s: %s' % (prop, b))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN property=%s: internal error' % prop)
        return 3
    kn = known()
    new = []
    for k, m in sorted(ctx.violations.items()):
        if (prop, k) in kn: print('KNOWN-FINDING: property=%s %s [%s]' % (prop, kn[(prop, k)], k))
        else: new.append((k, m))
    rp = os.path.join(EV, prop + '.violations.txt')
    with open(rp, 'w') as f:
        for k, m in new: f.write('%s\n    %s\n' % (k, m))
    cov = {'explanation': ctx.explanation, 'obligations': ctx.obligations, 'discharged': ctx.discharged, 'known_findings': len(ctx.violations) - len(new)}
    cov.update(ctx.counts)
    if ctx.samples: cov['samples'] = ctx.samples
    if ctx.undetermined: cov['not_decided'] = ctx.undetermined
    if ctx.notes: cov['notes'] = ctx.notes
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': ctx.level, 'coverage': cov, 'assumptions': ctx.assumptions,
         'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(ev, 'w') as f: json.dump(d, f, indent=1, default=str)
    for k, m in new: print('  %s: %s' % (k, m))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s obligations=%d discharged=%d undetermined=%d (%.1fs)' % (prop, ctx.obligations, ctx.discharged, ctx.counts.get('undetermined', 0), time.time() - t0))
    return 0
