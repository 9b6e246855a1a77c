"""Check runner: obligations, verdicts, evidence, known findings."""
import itertools, json, multiprocessing, os, re, signal, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Broken, CompileError, Scratch, VERIF, REPO
import vgraph
from vgraph import Ctx, Func, Unsupported, compare, explain

NPROC = min(8, os.cpu_count() or 4)


_count = itertools.count()


class Check:
    """obligations are (name, status, detail, anchor); status: ok / violated / undecided"""

    def __init__(self, pid, level='other', rule='', assumptions=(), trusted=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.obs = []
        self.counts = {}
        self.t0 = time.time()
        self.sc = Scratch()
        self.notes = []

    # -- recording
    def ok(self, name, detail='', anchor=''):
        self.obs.append((name, 'ok', detail, anchor))

    def bad(self, name, detail, anchor=''):
        self.obs.append((name, 'violated', detail, anchor))

    def undecided(self, name, detail, anchor=''):
        self.obs.append((name, 'undecided', detail, anchor))

    def verdict(self, name, good, detail='', anchor=''):
        (self.ok if good else self.bad)(name, detail, anchor)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # -- obligations of the form: library function == reference, for all inputs
    def equiv(self, probe, defs=(), opts=None, cut=(), only=None, timeout=300, tag='', extra=(), per=None, judge=None, split=False):
        path = probe if os.path.isabs(probe) else os.path.join(VERIF, 'probes', probe)
        prelude, secs = parse_probe(open(path).read())
        if only:
            allsecs = secs
            secs = [s for s in secs if only(s[0])]
            if len(secs) < len(allsecs):        # compile only what is asked for
                path2 = self.sc.path('sel%d_%s' % (len(os.listdir(self.sc.d)), os.path.basename(path)))
                open(path2, 'w').write('#line 1 "%s"\n' % path + prelude + ''.join('\n//@ %s | %s\n%s' % s for s in secs))
                extra = list(extra) + ['-I' + os.path.dirname(path)]
                path = path2
        jobs = []
        try:
            if split:
                raise CompileError('', '')
            mod = self._mod(path, None, defs, cut, extra, tag)
            jobs = [(s, mod) for s in secs]
        except CompileError as e:
            if os.environ.get('VG_DEBUG') and not split:
                print('whole probe does not compile:', e.stderr[:3000])

            def one(ks):
                k, s = ks
                src = self.sc.path('sec%d_%s_%s' % (k, tag, os.path.basename(path)))
                open(src, 'w').write(prelude + '\n' + s[2])
                try:
                    return s, self._mod(src, None, defs, cut, extra, tag + 's%d' % k)
                except CompileError as e2:
                    return s, e2
            vlib.ensure_tools()
            with ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
                for s, m in ex.map(one, enumerate(secs)):
                    if isinstance(m, CompileError):
                        if os.environ.get('VG_DEBUG'):
                            print('section does not compile:', s[0], m.stderr[:3000])
                        self.undecided(tag + s[0], 'witness does not compile against this tree: ' + first_error(m.stderr), s[1])
                    else:
                        jobs.append((s, m))
        # which section defines which function (macros expanded, comments kept)
        r = vlib.sh([vlib.CLANG] + vlib.STD + vlib.INC + ['-D' + d for d in defs] + list(extra) + ['-E', '-C', '-P', path])
        where = {}
        for name, anchor, body in parse_probe(r.stdout)[1]:
            for n in re.findall(r'\bP_(\w+)', body):
                where.setdefault(n, (name, anchor))
        w2, seen = [], set()
        for s, mod in jobs:
            for f in mod['functions']:
                n = f[2:]
                if not f.startswith('P_') or not judge and 'R_' + n not in mod['functions'] or n in seen:
                    continue
                if 'blocks' not in mod['functions'][f] or n not in where or (only and not only(where[n][0])):
                    continue
                seen.add(n)
                w2.append((tag + n, where[n][1], mod, n, (per or {}).get(n, opts), timeout))
        res = pmap(_equiv_job if judge is None else lambda w: _judge_job(w, judge), w2)
        for (name, anchor, mod, n, o, t), (st, detail, stats) in zip(w2, res):
            self.obs.append((name, st, detail, anchor))
            for k, v in stats.items():
                self.count(k, v)
        self.count('probe units')

    def group(self, *jobs):
        """several equiv calls side by side, each in a process of its own; jobs: (probe, keyword arguments)"""
        ctx = multiprocessing.get_context('fork')
        vlib.ensure_tools()

        def child(q, probe, kw):
            try:
                self.obs, self.counts, self.sc = [], {}, Scratch()
                try:
                    self.equiv(probe, **kw)
                finally:
                    self.sc.__exit__()
                q.send(('ok', self.obs, self.counts))
            except Exception as e:
                q.send(('error', traceback.format_exc(), e.__class__.__name__))
            q.close()
        ps = []
        for probe, kw in jobs:
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, probe, kw))
            p.start()
            b.close()
            ps.append((p, a))
        err = None
        for p, a in ps:
            try:
                k, x, y = a.recv()
            except EOFError:
                k, x, y = 'error', 'an analysis process ended early', ''
            p.join()
            if k == 'error':
                err = x
            else:
                self.obs += x
                for n, v in y.items():
                    self.count(n, v)
        if err:
            raise Broken(err)

    def _mod(self, src, name, defs, cut, extra, tag):
        nm = 'm%d' % next(_count)
        return vlib.ir(self.sc, src, nm, None, defs, ('P_', 'R_'), extra, cut, bodies=True)

    # -- finish
    def finish(self, min_ok=1):
        self.sc.__exit__()
        bad = [o for o in self.obs if o[1] == 'violated']
        und = [o for o in self.obs if o[1] == 'undecided']
        good = [o for o in self.obs if o[1] == 'ok']
        known = load_known(self.pid)
        viol, kf = [], []
        for o in bad:
            (kf if any(o[0] == k for k in known) else viol).append(o)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': {
                'explanation': self.rule,
                'obligations': len(self.obs), 'discharged': len(good),
                'violated': len(bad), 'undecided': len(und), 'known_findings': len(kf),
                'checker_cmd': 'python3 /verif/run.py %s %s' % (self.pid, self.tier),
                'trusted_base': self.trusted or ['clang 18 front end and mid-level optimiser', 'the analyser in /verif/lib', 'the reference definitions in /verif/probes'],
                'analysed': self.counts,
                'undecided_list': [{'obligation': o[0], 'reason': o[2][:300]} for o in und],
                'samples': [{'obligation': o[0], 'anchor': o[3], 'status': o[1], 'detail': o[2][:200]} for o in self.obs[:400]],
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        tmp = p + '.tmp%d' % os.getpid()
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, p)
        for o in kf:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o[0], o[2][:300]))
        for o in und:
            print('UNDECIDED %s: %s' % (o[0], o[2][:300]))
        print('%s: %d obligations, %d hold, %d violated, %d undecided  (%.1fs)' % (self.pid, len(self.obs), len(good), len(bad), len(und), ev['wall_s']))
        if viol:
            rp = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % self.pid)
            with open(rp, 'w') as f:
                for o in viol:
                    f.write('property %s, obligation %s\n  at: %s\n  %s\n\n' % (self.pid, o[0], o[3], o[2]))
                f.write('re-run: python3 /verif/run.py %s %s\n' % (self.pid, self.tier))
            for o in viol[:12]:
                print('  violated: %s [%s]\n      %s' % (o[0], o[3], o[2][:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if len(good) < min_ok:
            print('analysis broken: only %d obligations could be decided (need %d)' % (len(good), min_ok))
            return 2
        return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) obligation=(\S+)', l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def first_error(s):
    for l in s.split('\n'):
        if 'error:' in l:
            return l[:300]
    return s[:300]


def parse_probe(txt):
    parts = re.split(r'(?m)^//@ *', txt)
    prelude = parts[0]
    secs = []
    for p in parts[1:]:
        head, _, body = p.partition('\n')
        name, _, anchor = head.partition('|')
        secs.append((name.strip(), anchor.strip(), body))
    return prelude, secs


_DIAG = re.compile(r'std::basic_ostream|std::ostream|std::__ostream_insert|std::ios_base|std::basic_ios|std::ctype|__cxa_allocate_exception|__cxa_free_exception|'
                   r'std::(runtime_error|logic_error|out_of_range|bad_alloc|exception|invalid_argument|bad_cast)::|__cxa_begin_catch|__cxa_end_catch|'
                   r'std::(__cxx11::)?basic_(string|stringstream|ostringstream|stringbuf|istringstream)|std::allocator<char>|std::operator<<|std::operator\+|'
                   r'viennagrid::io::\w*(exception|error)\w*::|std::(__cxx11::)?to_string|std::locale')


def diagnostics(dem):
    """calls that only produce diagnostics or exception objects"""
    return bool(_DIAG.match(dem))


class _TO(Exception):
    pass


def _alarm(*a):
    raise _TO()


_JOBS = None


def _run(k):
    f, w = _JOBS
    try:
        return f(w[k])
    except Exception:
        return ('undecided', 'internal error: ' + traceback.format_exc()[-600:], {})


def pmap(f, work):
    """parallel map with fork; arguments are inherited, only results are pickled"""
    global _JOBS
    if not work:
        return []
    _JOBS = (f, work)
    if len(work) == 1 or os.environ.get('VG_SERIAL'):
        return [_run(k) for k in range(len(work))]
    sys.setrecursionlimit(100000)
    with multiprocessing.get_context('fork').Pool(min(NPROC, len(work))) as p:
        return p.map(_run, range(len(work)), chunksize=1)


def _equiv_job(w):
    name, anchor, mod, n, opts, timeout = w
    opts = dict(opts or {})
    opts.setdefault('ignore', diagnostics)
    opts.setdefault('calls', True)
    sys.setrecursionlimit(100000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    t = time.time()
    try:
        c = Ctx()
        c.ties_free = opts.get('ties') == 'free'
        a = Func(c, mod, 'P_' + n, opts).run()
        refs = ['R_' + n] + sorted(f for f in mod['functions'] if f.startswith('R_' + n + '__'))
        for rn in refs:          # equal to the reference or to one of its admitted alternatives
            b = Func(c, mod, rn, opts).run()
            ds = compare(c, a, b, opts.get('outs', 'all'))
            if not ds:
                break
            if rn == refs[0]:
                ds0 = ds
        if ds:
            ds = ds0
        st = {'functions': 2, 'ir instructions': sum(len(x) for k in ('P_', 'R_') for x in mod['functions'][k + n]['blocks']),
              'sign predicates': len(c.atoms), 'diagram nodes': len(c.nodes)}
        if ds and opts.get('summary') and not c.contract_calls:
            return 'undecided', 'the library no longer reaches the nested query through the function whose contract stands for it', st
        if ds:
            return 'violated', ' || '.join(explain(c, d) for d in ds[:2]), st
        return 'ok', 'equal for all inputs: %d predicates, %d diagram nodes, %.2fs' % (len(c.atoms), len(c.nodes), time.time() - t), st
    except Unsupported as e:
        return 'undecided', 'outside the analysed fragment: %s' % e, {}
    except _TO:
        return 'undecided', 'analysis time limit', {}
    except RecursionError:
        return 'undecided', 'analysis depth limit', {}
    finally:
        signal.alarm(0)


def leaves(c, outs, limit=20000):
    """every consistent combination of predicate signs with the values of all outputs under it"""
    res = []

    def go(vals, path):
        top = min(v.top for v in vals)
        if path and not c.consistent(path):
            return
        if top == vgraph.Term.top:
            if c.cycle(path):
                return
            res.append((path, vals))
            if len(res) > limit:
                raise Unsupported('too many cases')
            return
        for w in range(3):
            if w == 0 and c.atoms[top].d.nonneg:
                continue
            if w == 1 and c.ties_free and c.atoms[top].fp:
                continue
            go([c.cof(v, top, w) for v in vals], path + ((top, w - 1),))
    go(outs, ())
    return res


def _judge_job(w, judge):
    """all outcomes of one function, each handed to the judge as {(argument, offset): constant}"""
    name, anchor, mod, n, opts, timeout = w
    opts = dict(opts or {})
    opts.setdefault('ignore', diagnostics)
    opts.setdefault('calls', True)
    sys.setrecursionlimit(100000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    t = time.time()
    try:
        c = Ctx()
        c.ties_free = opts.get('ties') == 'free'
        a = Func(c, mod, 'P_' + n, opts).run()
        keys = sorted(k for k in a.out if not str(k[0]).startswith('@'))
        outs = [a.out[k] for k in keys] + [a.ret, a.trace]
        ls = leaves(c, outs)
        st = {'functions': 1, 'ir instructions': sum(len(x) for x in mod['functions']['P_' + n]['blocks']), 'sign predicates': len(c.atoms), 'cases': len(ls)}
        for path, vals in ls:
            if isinstance(vals[-1], vgraph.Obj) and len(vals[-1].key) > 1:
                raise Unsupported('external effects: %s' % str(vals[-1].key)[:200])
            d = {}
            for k, v in zip(keys, vals):
                d[k] = v.const if isinstance(v, vgraph.Term) else None
            m = judge(n, d)
            if m:
                cond = ' and '.join('%s %s' % (c.atoms[x].desc[:120], {-1: '<0', 0: '=0', 1: '>0'}[s]) for x, s in path)
                return 'violated', m + (' when ' + cond if cond else ''), st
        return 'ok', '%d cases, %d predicates, %.2fs' % (len(ls), len(c.atoms), time.time() - t), st
    except Unsupported as e:
        return 'undecided', 'outside the analysed fragment: %s' % e, {}
    except _TO:
        return 'undecided', 'analysis time limit', {}
    except RecursionError:
        return 'undecided', 'analysis depth limit', {}
    finally:
        signal.alarm(0)
