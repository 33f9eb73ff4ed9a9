#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ and tries each planted change: builds, tests, demo, checks.
usage: plants.py [ids...]   (works on a scratch copy of /repo, never on /repo itself)"""
import sys, os, json, subprocess, shutil, textwrap, concurrent.futures
V = '/verif'
P = {}
def plant(id, prop, edits, needs, breaks, demo, flags='', pre=''):
    P[id] = dict(property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=demo, flags=flags, pre=pre)

PRELUDE = r'''#include "Bitcoin.h"
#include "Conversion.h"
#include "Hash.h"
#include "PSBT.h"
#include "Electrum.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
extern "C" uint32_t random32(void){ static uint32_t x = 12345; x = x*1664525u + 1013904223u; return x; }
typedef std::string S;
static int bad = 0;
#define OK(c) do{ if(!(c)){ bad = 1; printf("line %d: %s\n", __LINE__, #c); } }while(0)
static S hx(const uint8_t *p, size_t n){ S r; char b[3]; for(size_t i=0;i<n;i++){ snprintf(b,3,"%02x",p[i]); r+=b; } return r; }
static std::vector<uint8_t> un(const S &h){ std::vector<uint8_t> v; for(size_t i=0;i+1<h.size();i+=2) v.push_back((uint8_t)strtol(h.substr(i,2).c_str(),NULL,16)); return v; }
static S le(uint64_t v, int n){ S r; char b[3]; for(int i=0;i<n;i++){ snprintf(b,3,"%02x",(unsigned)(v>>(8*i))&255); r+=b; } return r; }
static S rep(const char *s, int n){ S r; while(n--) r+=s; return r; }
'''
DEMO = r'''#!/bin/bash
# builds the library from the current directory's sources and runs demo.cpp: 0 - the property holds here
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
R="$PWD"
F="-O1 -g -w -DUSE_STDONLY -I$R/src @FLAGS@"
cd "$T" || exit 99
for f in "$R"/src/utility/*.c "$R"/src/utility/trezor/*.c; do gcc $F -c "$f" -o "$(basename "$f").o" & done
for f in "$R"/src/*.cpp "$D"/demo.cpp; do g++ -std=c++11 $F -c "$f" -o "$(basename "$f").o" & done
wait
g++ $F *.o -o demo || exit 98
timeout 200 ./demo
'''

# ------------------------------------------------------------------ the changes
exec(open(V + '/tools/plant_defs.py').read())

def sh(c, cwd=None, env=None, t=1500):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = ''; stderr = 'timeout'
        return R
def write(id):
    p = P[id]; d = f'{V}/seeded/{id}'; w = f'/tmp/w/plant/{id}'
    os.makedirs(d, exist_ok=True); shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/w/plant', exist_ok=True)
    sh(f'git clone -q /repo {w}')
    for f, a, b in p['edits']:
        s = open(f'{w}/{f}').read()
        if s.count(a) != 1: return f'{id}: {f}: {s.count(a)} matches of {a!r}'
        open(f'{w}/{f}', 'w').write(s.replace(a, b))
    open(f'{d}/patch.diff', 'w').write(sh('git diff', w).stdout)
    rnd = 'extern "C" uint32_t random32(void){ '
    pl = PRELUDE
    if p['pre'] == '@RND@':
        p['pre'] = ''
        pl = PRELUDE.replace(rnd, 'static int zeros = 0;\n' + rnd + 'if(zeros > 0){ zeros--; return 0; } ')
    open(f'{d}/demo.cpp', 'w').write(pl + p['pre'] + 'int main(){\n' + textwrap.dedent(p['demo']).strip('\n') + '\n    return bad;\n}\n')
    open(f'{d}/demo.sh', 'w').write(DEMO.replace('@FLAGS@', p['flags'])); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['what_it_breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    d0 = sh(f'bash {d}/demo.sh', '/repo'); d1 = sh(f'bash {d}/demo.sh', w)
    if d0.returncode != 0: return f'{id}: demo {d0.returncode} on unchanged: {(d0.stdout+d0.stderr)[-800:]}'
    if d1.returncode == 0: return f'{id}: demo passes with the patch'
    if d1.returncode in (98, 99): return f'{id}: demo does not build: {d1.stderr[-600:]}'
    return None
def check(id, prop):
    w = f'/tmp/w/plant/{id}'
    r = sh(f'python3 run.py {prop}', V, dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick', VERIF_BUILD=f'/tmp/w/plant/b-{id}-{prop}'))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return ('caught' if r.returncode == 1 and v else f'MISSED rc={r.returncode}'), (r.stdout + r.stderr)[-300:]
if __name__ == '__main__':
    ids = sys.argv[1:] or list(P)
    res = {}
    for i in ids:
        e = write(i)
        if e: print('BAD', e, flush=True); continue
        # the repository's own tests, on a temporary application of the patch
        a = sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff')
        b = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/w/plant/t.json'); sh('git -C /repo checkout -- .')
        n = len(json.load(open('/tmp/w/plant/t.json')).get('passed', [])) if t.returncode in (0, 1) else -1
        c, tail = check(i, P[i]['property'])
        print(i, P[i]['property'], 'apply', a.returncode, 'build', b.returncode, 'tests', n, c, '' if c == 'caught' else tail, flush=True)
        shutil.rmtree(f'/tmp/w/plant/{i}', ignore_errors=True)
        sh(f'rm -rf /tmp/w/plant/b-{i}-{P[i]["property"]}')
        f = f'{V}/tools/plant_results.json'
        try: R = json.load(open(f))
        except Exception: R = {}
        R[i] = {'property': P[i]['property'], 'tests': n, 'result': c.split()[0]}
        json.dump(R, open(f, 'w'), indent=1, sort_keys=True)
    sh('bash /opt/vp/build.sh')
