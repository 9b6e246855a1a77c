#!/usr/bin/env python3
"""mutate.py FILE.py [substr]: FILE defines M=[(prop, file, old, new)]; reports whether `run.py prop quick` notices each change
(new starting with '=': behaviour-preserving, must stay quiet).  Works on a scratch copy through VG_REPO; not used by any check."""
import os, shutil, subprocess, sys
g = {}; exec(open(sys.argv[1]).read(), g)
sub = sys.argv[2] if len(sys.argv) > 2 else ''
W = '/tmp/mutw%d' % os.getpid()
shutil.copytree('/repo/viennagrid', W + '/viennagrid')
for prop, fn, old, new in g['M']:
    nth = 0
    if isinstance(old, tuple): old, nth = old          # (text, which occurrence, counted from 1)
    if sub and sub not in prop + fn + old: continue
    quiet = new.startswith('='); new = new[1:] if quiet else new
    p = W + '/viennagrid/' + fn; s = open(p).read()
    if s.count(old) != 1 and not 0 < nth <= s.count(old):
        print('BAD-EDIT', prop, fn, s.count(old), old[:60]); continue
    if nth:
        b = s.split(old); open(p, 'w').write(old.join(b[:nth]) + new + old.join(b[nth:]))
    else: open(p, 'w').write(s.replace(old, new))
    for pr in prop.split('+'):
        r = subprocess.run(['python3', '/verif/run.py', pr, 'quick'], env=dict(os.environ, VG_REPO=W), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        names = [l.split()[1] for l in r.stdout.split('\n') if l.strip().startswith('violated:')]
        und = sum(l.startswith('UNDECIDED') for l in r.stdout.split('\n'))
        good = (r.returncode == 1) != quiet and r.returncode in (0, 1)
        print('%s %s rc=%d %s | %s => %s | %s%s' % ('ok    ' if good else 'MISSED' if not quiet else 'ALARM ', pr, r.returncode, fn, ' '.join(old.split())[:70], ' '.join(new.split())[:70], ','.join(names[:4]), ' und=%d' % und if und else ''), flush=True)
    open(p, 'w').write(s)
shutil.rmtree(W)
