"""Builds the extractor, runs it over every translation unit of the current /repo tree and merges the facts."""
import os, sys, json, hashlib, subprocess, glob, pickle, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))

class Broken(Exception):
    """The analysis could not be carried out (never a verdict about the property)."""

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]

def build_extractor():
    src = os.path.join(HERE, 'extract.cpp')
    key = sha(open(src, 'rb').read())
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'extract-' + key)
    if os.path.exists(exe):
        return exe
    flags = subprocess.run(['llvm-config-18', '--cppflags'], capture_output=True, text=True)
    if flags.returncode != 0:
        raise Broken('llvm-config-18 not usable: ' + flags.stderr)
    tmp = exe + '.%d.tmp' % os.getpid()
    cmd = ['clang++-18', '-O1', '-std=c++17', '-fno-rtti'] + [f for f in flags.stdout.split() if f != '-DNDEBUG'] + \
          [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('extractor does not build: ' + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe

def generated_dir():
    d = os.path.join(REPO, '_build', 'TameParse')
    if os.path.exists(os.path.join(d, 'tameparse_language.h')):
        return d
    return os.path.join(VERIF, 'tu', 'generated')

def flags():
    return ['-std=gnu++17', '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-w', '-fno-delayed-template-parsing',
            '-I' + REPO, '-I' + generated_dir(), '-I' + os.path.join(REPO, '_build', 'bootstrap'), '-I' + os.path.join(VERIF, 'tu', 'generated')]

def source_files():
    out = []
    for top in ('TameParse', 'parsetool', 'bootstrap'):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.h', '.tp')):
                    out.append(os.path.join(root, f))
    return out

def units():
    us = [f for f in source_files() if f.endswith('.cpp')]
    us += sorted(glob.glob(os.path.join(VERIF, 'tu', '*.cpp')))
    return us

def load(verbose=False):
    exe = build_extractor()
    srcs = source_files()
    us = units()
    if len(us) < 60:
        raise Broken('only %d translation units found under %s' % (len(us), REPO))
    key = sha(REPO, open(exe, 'rb').read(), *[open(f, 'rb').read() for f in srcs + [u for u in us if u not in srcs]],
              *[open(f, 'rb').read() for f in sorted(glob.glob(generated_dir() + '/*.h'))], ' '.join(flags()), open(__file__, 'rb').read())
    pk = os.path.join(CACHE, 'facts-' + key + '.pickle')
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix='facts', dir=CACHE)
    def one(i_u):
        i, u = i_u
        out = os.path.join(tmp, '%d.json' % i)
        r = subprocess.run([exe, out, u, REPO + '/,' + os.path.join(VERIF, 'tu', 'build')] + ['--'] + flags(), capture_output=True, text=True, cwd=tmp)
        if not os.path.exists(out) or (r.returncode != 0 and not u.startswith(VERIF)):
            return u, None, r.stderr[-1500:]
        return u, out, r.stderr[-1500:]
    try:
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(one, list(enumerate(us))))
        facts = {'functions': {}, 'records': {}, 'enums': {}, 'globals': {}, 'units': [], 'failed': []}
        for u, out, err in res:
            if out is None:
                facts['failed'].append((u, err))
                continue
            with open(out) as f:
                d = json.load(f)
            facts['units'].append(u)
            for fn in d['functions']:
                k = fn['id'] + ('@' + u if fn['sn'] == 'main' else '')
                if k not in facts['functions']:
                    fn['unit'] = u
                    fn['id'] = k if k != fn['id'] else fn['id']
                    facts['functions'][k] = fn
            for r in d['records']:
                facts['records'].setdefault(r['name'], r)
            for e in d['enums']:
                facts['enums'].setdefault(e['name'], e)
            for g in d['globals']:
                facts['globals'].setdefault(g['name'], g)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if facts['failed']:
        raise Broken('does not parse: ' + '; '.join('%s: %s' % (u, e) for u, e in facts['failed'][:3]))
    for old in glob.glob(os.path.join(CACHE, 'facts-*.pickle')):
        try: os.unlink(old)
        except OSError: pass
    t = pk + '.%d.tmp' % os.getpid()
    with open(t, 'wb') as f:
        pickle.dump(facts, f, protocol=4)
    os.replace(t, pk)
    return facts

if __name__ == '__main__':
    import time
    t = time.time()
    F = load()
    print('units %d functions %d records %d enums %d globals %d in %.1fs' % (len(F['units']), len(F['functions']), len(F['records']), len(F['enums']), len(F['globals']), time.time() - t))
