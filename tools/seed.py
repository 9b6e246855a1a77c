#!/usr/bin/env python3
"""seed.py FILE.py...: each FILE defines id, prop, edits=[(file, old, new)], demo (C++ source), needs, breaks.
Confirms in a scratch clone that the change builds, passes the stable tests, and that the demonstration tells the two
trees apart, then writes /verif/seeded/<id>/.  Not used by any check."""
import json, os, re, shutil, subprocess, sys
V = '/verif/seeded'
W = '/tmp/seedw'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++98 -w -I. "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && ./demo
'''
def clone():
    shutil.rmtree(W, ignore_errors=True)
    r = sh('git clone -q /repo %s' % W); assert r.returncode == 0, r.stdout
    r = sh('cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_FLAGS_RELEASE=-O1 -DCMAKE_CXX_STANDARD=98 -DBUILD_TESTING=ON -DBUILD_EXAMPLES=ON && ninja -C _b tests/all', cwd=W)
    assert r.returncode == 0, r.stdout[-2000:]
def main():
    notests = '--notests' in sys.argv
    files = [a for a in sys.argv[1:] if not a.startswith('-')]
    if not os.path.exists(W): clone()
    sh('git fetch -q origin && git reset -q --hard FETCH_HEAD', cwd=W)
    for f in files:
        g = {}; exec(open(f).read(), g)
        sh('git checkout -q -- .', cwd=W)
        for (fn, old, new) in g['edits']:
            p = os.path.join(W, fn); s = open(p).read()
            assert s.count(old) == 1, (fn, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(V, g['id']); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
        open(d + '/demo.cpp', 'w').write(g['demo']); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=W)
        ok = a.returncode == 0 and b.returncode not in (0, 3)
        msg = 'demo unchanged rc=%d, changed rc=%d' % (a.returncode, b.returncode)
        if not ok: msg += '\n' + a.stdout[-1500:] + '\n--\n' + b.stdout[-1500:]
        if ok and not notests:
            r = sh('ninja -C _b tests/all 2>&1 | tail -5; ctest --test-dir _b -j8 --timeout 300 2>&1 | tail -30', cwd=W)
            stable = {x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']}
            failed = set(re.findall(r'\d+ - (\S+) \(', r.stdout)) & stable
            m = re.search(r'(\d+)% tests passed.*', r.stdout)
            msg += ' | tests: %s %s' % (m.group(0) if m else r.stdout[-1500:], 'STABLE FAILED %s' % failed if failed else '')
            ok = bool(m) and not failed
        print(g['id'], 'OK' if ok else 'REJECTED', msg, flush=True)
        if not ok: shutil.rmtree(d)
    sh('git checkout -q -- .', cwd=W)
main()
