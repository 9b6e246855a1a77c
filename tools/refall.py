#!/usr/bin/env python3
"""refall.py FILE.py [CHECK...]: applies all (behaviour-preserving) edits of FILE (M=[(prop, file, old, new)]) at once to a scratch
copy and runs all checks: every one has to stay quiet.  Also compiles the tests of the copy.  Not used by any check."""
import os, re, shutil, subprocess, sys
g = {}; exec(open(sys.argv[1]).read(), g)
W = '/tmp/refw%d' % os.getpid()
shutil.copytree('/repo/viennagrid', W + '/viennagrid')
for prop, fn, old, new in g['M']:
    p = W + '/viennagrid/' + fn; s = open(p).read()
    pat = r'\s+'.join(re.escape(w) for w in old.split())
    n = len(re.findall(pat, s))
    if n == 0: print('BAD-EDIT', n, fn, ' '.join(old.split())[:80]); continue
    open(p, 'w').write(re.sub(pat, lambda m: new.strip(), s))
for t in sorted(os.listdir('/repo/tests/src')) if '-c' in sys.argv else []:
    if t.endswith('.cpp'):
        r = subprocess.run(['g++', '-std=c++98', '-w', '-fsyntax-only', '-I' + W, '/repo/tests/src/' + t], text=True, stderr=subprocess.PIPE)
        if r.returncode:
            e = [l for l in r.stderr.split('\n') if 'error' in l]; print('COMPILE', t, e[0][:300] if e else '')
props = [a for a in sys.argv[2:] if a not in ('-c','-k')] or ['C%02d' % i for i in range(1, 19)]
for pr in props:
    r = subprocess.run(['python3', '/verif/run.py', pr, 'quick'], env=dict(os.environ, VG_REPO=W), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    und = [l for l in r.stdout.split('\n') if l.startswith('UNDECIDED')]
    vio = [l for l in r.stdout.split('\n') if l.strip().startswith('violated:')]
    print('%s %s rc=%d undecided=%d %s' % ('ok   ' if r.returncode == 0 else 'ALARM', pr, r.returncode, len(und), ''), flush=True)
    for l in (vio + und)[:6]: print('      ' + l.strip()[:260], flush=True)
if '-k' not in sys.argv: shutil.rmtree(W)
