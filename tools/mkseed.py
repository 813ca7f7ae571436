#!/usr/bin/env python3
"""mkseed.py [ids...]: (re)create /verif/seeded/<id> from tools/seeds_spec.py, validating each in a scratch copy of /repo:
the change builds, keeps the stable tests passing, and its demonstration fails with it and passes without it.
mkseed.py --check [ids...]: run the property's quick check against each planted bug (in the scratch copy)."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.isdir(S):
        os.makedirs(S)
    sh(f'rsync -a --delete --exclude _build /repo/ {S}/') if shutil.which('rsync') else sh(f'mkdir -p /tmp/seedrepo.k && mv {S}/_build /tmp/seedrepo.k/ ; rm -rf {S} && cp -a /repo {S} && rm -rf {S}/_build && mv /tmp/seedrepo.k/_build {S}/')
    sh(f'git -C {S} checkout -q -- .')
def build_test():
    b = open('/opt/vp/build.sh').read().replace('/repo', S)
    open('/tmp/seed_build.sh', 'w').write(b)
    r = sh('bash /tmp/seed_build.sh')
    if r.returncode: return 'BUILD: ' + (r.stdout + r.stderr)[-1500:]
    sh(f'python3 /opt/vp/run_catch.py {S}/_build/test/vecmath-test /tmp/seed_o.json')
    o, base = json.load(open('/tmp/seed_o.json')), json.load(open('/opt/vp/BASELINE.json'))
    miss = [x for x in base['stable'] if x not in o['passed']]
    return 'TESTS: %s' % miss[:4] if miss else None
DEMO = '''#!/bin/bash
# compiles demo.cpp against the headers of the current directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"; B=$(mktemp -d); trap 'rm -rf "$B"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD/include" "$D/demo.cpp" -o "$B/demo" || exit 2
timeout 60 "$B/demo"
'''
PRE = '''#include <vecmath/forward.h>
#include <array>
#include <cmath>
#include <iterator>
#include <cstdio>
#include <limits>
#include <string>
#include <vector>
%s
static int bad = 0;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("failed: %%s\\n", #__VA_ARGS__); bad = 1; } } while (0)
static bool near(double a, double b) { return std::abs(a - b) < 1e-4; }
int main() {
%s
  return bad;
}
'''
def main():
    args = sys.argv[1:]
    check = '--check' in args
    args = [a for a in args if a != '--check']
    ns = {}
    exec(open(V + '/tools/seeds_spec.py').read(), ns)
    for s in ns['SEEDS']:
        i = s['id']
        if args and not any(i.startswith(a) for a in args): continue
        d = f'{V}/seeded/{i}'
        if not args and not check and os.path.exists(d + '/patch.diff'): continue
        if check and not os.path.exists(d + '/patch.diff'): continue
        fresh()
        if check:
            r = sh(f'git -C {S} apply {d}/patch.diff')
            assert r.returncode == 0, r.stderr
            r = sh(f'cd {V} && VP_REPO={S} VP_EVIDENCE=/tmp/seed_ev ./check {s["property"]} --tier quick')
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print(i, s['property'], 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', v[:1], (r.stdout.splitlines() or [''])[-1][:200], flush=True)
            sh(f'git -C {S} checkout -q -- .')
            continue
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        inc = '\n'.join(f'#include <vecmath/{x}.h>' for x in s['inc'])
        open(d + '/demo.cpp', 'w').write(PRE % (inc, s['demo'].strip('\n')))
        r0 = sh(f'cd {S} && bash {d}/demo.sh')
        ok = True
        for f, old, new in s['edits']:
            p = f'{S}/include/vecmath/{f}'
            t = open(p).read()
            if t.count(old) != 1: print(i, 'EDIT matches', t.count(old), repr(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: shutil.rmtree(d); continue
        e = build_test()
        r1 = sh(f'cd {S} && bash {d}/demo.sh')
        if e or r0.returncode != 0 or r1.returncode == 0 or r1.returncode == 2:
            print(i, 'REJECTED', e, 'demo clean', r0.returncode, (r0.stdout+r0.stderr)[-600:], 'demo patched', r1.returncode, r1.stdout[-300:], r1.stderr[-300:], flush=True)
            shutil.rmtree(d)
        else:
            open(d + '/patch.diff', 'w').write(sh(f'git -C {S} diff').stdout)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
            print(i, 'ok', flush=True)
        sh(f'git -C {S} checkout -q -- .')
main()
