"""Common machinery: building IR from probes against /repo's current tree, evidence, findings."""
import fnmatch, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VG_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++'
STD = ['-std=gnu++98', '-DNDEBUG']
INC = ['-I' + REPO, '-I' + os.path.join(VERIF, 'probes'), '-include', os.path.join(VERIF, 'probes', 'diag.hpp')]
WARN = ['-Wno-everything']
O2 = ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno'] + ['-mllvm', '-inline-threshold=1000000', '-mllvm', '-unroll-runtime=false', '-mllvm', '-unroll-threshold=1000000', '-mllvm', '-unroll-full-max-count=4096',
                '-mllvm', '-phi-node-folding-threshold=0', '-mllvm', '-jump-threading-threshold=0',
                '-fno-stack-protector', '-fno-threadsafe-statics']


class Broken(Exception):
    """the analysis itself could not be carried out (exit 2)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_tools():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'irdump')
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    cfg = sh(['llvm-config-18', '--cxxflags', '--ldflags']).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    r = sh(['clang++', '-O1', src, '-o', tmp] + cfg + ['-std=c++17', '-fno-rtti', '-fexceptions', '-lLLVM-18'])
    if r.returncode:
        raise Broken('irdump does not build:\n' + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


class Scratch:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='vgsa-')

    def __enter__(self):
        return self

    def path(self, n):
        return os.path.join(self.d, n)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class CompileError(Exception):
    def __init__(self, msg, stderr):
        Exception.__init__(self, msg)
        self.stderr = stderr


def emit_ir(sc, src, name, opt=None, defs=(), extra=()):
    """C++ -> LLVM IR text file"""
    out = sc.path(name + '.ll')
    cmd = [CLANG] + STD + (O2 if opt is None else opt) + WARN + INC + ['-D' + d for d in defs] + list(extra) + \
        ['-S', '-emit-llvm', src, '-o', out]
    r = sh(cmd)
    if r.returncode:
        raise CompileError(' '.join(cmd), r.stderr)
    return out


def dump(sc, ll, args=()):
    exe = ensure_tools()
    r = sh([exe, ll] + list(args))
    if r.returncode:
        raise Broken('irdump failed on %s: %s' % (ll, r.stderr[-500:]))
    return json.loads(r.stdout)


def ir(sc, src, name=None, opt=None, defs=(), prefixes=(), extra=(), cut=(), bodies=False):
    """cut: regexes on demangled names; matching functions are kept as opaque calls"""
    name = name or os.path.splitext(os.path.basename(src))[0]
    if cut:
        ll = emit_ir(sc, src, name + '.raw', opt, defs, list(extra) + ['-Xclang', '-disable-llvm-passes'])
        mk = sc.path(name + '.mk.ll')
        r = sh([ensure_tools(), '--mark', ll, mk] + list(cut))
        if r.returncode:
            raise Broken('mark failed: ' + r.stderr[-500:])
        marked = r.stdout.split('\n')
        ll = sc.path(name + '.ll')
        r = sh([CLANG] + (O2 if opt is None else opt) + WARN + ['-S', '-emit-llvm', mk, '-o', ll])
        if r.returncode:
            raise CompileError('opt', r.stderr)
    else:
        marked = []
        ll = emit_ir(sc, src, name, opt, defs, extra)
    a = ['--all'] if bodies else []
    for p in prefixes:
        a += ['--prefix', p]
    m = dump(sc, ll, a)
    m['cut'] = [x for x in marked if x]
    return m


def syntax_ok(sc, src, defs=(), std=None, cc=None, extra=()):
    """(ok, diagnostics) of a front end pass"""
    r = sh([cc or CLANG] + (std or STD) + WARN + INC + ['-D' + d for d in defs] + list(extra) + ['-fsyntax-only', src])
    return r.returncode == 0, r.stderr


def rel(p):
    p = os.path.normpath(p)
    return os.path.relpath(p, REPO) if p.startswith(REPO + '/') else p
