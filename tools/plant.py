#!/usr/bin/env python3
"""Development tool (no check uses it).  Makes and confirms planted changes.

plant.py make SPEC.py     SPEC.py defines: id, property, edits=[(file, old, new), ...], demo (C++ text of main program, or demo_sh), needs, breaks
plant.py confirm ID...    in a private mount namespace with a copy of /repo bound over /repo: demo passes unpatched, patch applies, builds, stable
                          tests pass, demo fails; then runs the check of the property
plant.py check ID [PROP]  only runs the check(s) against the patched copy (no build)
plant.py quiet PATCH [PROP...] runs the checks against a copy with PATCH applied (a behaviour-preserving edit)
"""
import os, sys, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++14 -w -I/repo -I/repo/_build -I/repo/_build/TameParse "$D/demo.cpp" -o "$W/demo" -L/repo/_build/TameParse/.libs -lTameParse || exit 3
cd "$W"
LD_LIBRARY_PATH=/repo/_build/TameParse/.libs timeout 100 "$W/demo"
'''
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def make(spec):
    g = {}; exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['id']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk')
    try:
        assert sh('git -C /repo worktree add --detach %s/r HEAD' % w).returncode == 0
        for f, old, new in g['edits']:
            p = os.path.join(w, 'r', f); s = open(p, newline='').read()
            if s.count(old) != 1: sys.exit('%s: %d matches in %s' % (g['id'], s.count(old), f))
            open(p, 'w', newline='').write(s.replace(old, new))
        r = sh('git -C %s/r diff' % w); open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout)
    finally:
        sh('git -C /repo worktree remove --force %s/r' % w); shutil.rmtree(w, ignore_errors=True)
    if 'demo' in g: open(os.path.join(d, 'demo.cpp'), 'w').write(g['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(g.get('demo_sh', DEMO))
    json.dump(dict(property=g['property'], needs=g['needs'], what_it_breaks=g['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('made', g['id'])
def inns(w, script):
    return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo || exit 99\n%s' % (w, script)], capture_output=True, text=True)
def env(w): return 'export VERIF_CACHE=%s/cache VERIF_EVIDENCE=%s/ev; mkdir -p %s/cache; cp -n %s/.cache/extract-* %s/cache/; cd %s; ' % (w, w, w, V, w, V)
def props():
    return [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
def runcheck(w, ps):
    r = inns(w, env(w) + '; '.join('timeout 900 python3 check.py %s; echo "rc=$? %s"' % (p, p) for p in ps))
    return r.stdout + r.stderr[-500:]
def confirm(id, build=True, ps=None):
    d = os.path.join(V, 'seeded', id); meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='pl'); out = ['== ' + id]
    try:
        sh('cp -a /repo %s/repo; cp -a %s %s/demo' % (w, d, w))
        if build:
            r = inns(w, 'cd /repo; bash %s/demo/demo.sh' % w)
            out.append('demo on clean: %d %s' % (r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else ''))
        r = inns(w, 'cd /repo; git apply %s/demo/patch.diff' % w)
        if r.returncode: return '\n'.join(out + ['DOES NOT APPLY ' + r.stderr])
        if build:
            r = inns(w, 'bash /opt/vp/build.sh')
            if r.returncode: return '\n'.join(out + ['DOES NOT BUILD ' + r.stderr[-800:]])
            r = inns(w, 'bash /opt/vp/test.sh %s/t.json' % w)
            b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t = set(json.load(open(w + '/t.json'))['passed'])
            out.append('tests missing: %s' % sorted(b - t)[:5])
            r = inns(w, 'cd /repo; bash %s/demo/demo.sh' % w)
            out.append('demo patched: %d %s' % (r.returncode, (r.stdout + r.stderr)[-200:]))
        out.append(runcheck(w, ps or [meta['property']]).strip())
    finally: shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(out)
def quiet(patch, ps):
    w = tempfile.mkdtemp(prefix='pl')
    try:
        sh('cp -a /repo %s/repo; cp %s %s/p.diff' % (w, patch, w))
        r = inns(w, 'cd /repo; git apply %s/p.diff' % w)
        if r.returncode: return 'DOES NOT APPLY ' + r.stderr
        return '== %s\n%s' % (patch, runcheck(w, ps or props()))
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        for s in a[1:]: make(s)
    elif a[0] == 'confirm':
        with ThreadPoolExecutor(3) as ex:
            for o in ex.map(confirm, a[1:]): print(o, flush=True)
    elif a[0] == 'check': print(confirm(a[1], False, a[2:] or None))
    elif a[0] == 'checks':
        with ThreadPoolExecutor(4) as ex:
            for o in ex.map(lambda i: confirm(i, False), a[1:]): print(o, flush=True)
    elif a[0] == 'quiet': print(quiet(os.path.abspath(a[1]), a[2:]))
