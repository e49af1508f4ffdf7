"""Front end: compile /repo's current sources to LLVM IR, link, dump as JSON, load."""
import glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EF_REPO', '/repo')
SRC = os.path.join(REPO, 'libs/e_float/src')
BUILD = os.path.join(VERIF, 'build')
CFG = {'efx': 'E_FLOAT_TYPE_EFX', 'gmp': 'E_FLOAT_TYPE_GMP', 'mpfr': 'E_FLOAT_TYPE_MPFR'}
PIPE = 'function(sroa,instsimplify,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts;bonus-inst-threshold=0>,loop-simplify)'
CLANG = 'clang++-18'


class Broken(Exception):
    """The analysis itself cannot run (exit code 2, never 1)."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


def _hash_files(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(VERIF, 'tool/irdump.cpp')
    key = _hash_files([src])
    exe = os.path.join(BUILD, 'irdump-' + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        sh([CLANG, '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-o', tmp])
        os.rename(tmp, exe)
    return exe


def headers():
    out = []
    for d in (SRC, os.path.join(REPO, 'libs/math/include')):
        for ext in ('h', 'hpp', 'hxx'):
            out += glob.glob(os.path.join(d, '**', '*.' + ext), recursive=True)
    return out


def lib_sources(cfg, tables=False):
    out = []
    for f in sorted(glob.glob(os.path.join(SRC, '**', '*.cpp'), recursive=True)):
        rel = os.path.relpath(f, SRC)
        parts = rel.split(os.sep)
        if parts[0] == 'e_float' and len(parts) > 2 and parts[1] != cfg:
            continue
        if ('tables' in parts) != tables:
            continue
        out.append(f)
    if not out:
        raise Broken('no sources found under ' + SRC)
    return out


def compile_bc(files, cfg, flags=(), opt='-O0'):
    """Return list of bitcode files for the given sources."""
    os.makedirs(BUILD, exist_ok=True)
    hdr = _hash_files(headers() + glob.glob(os.path.join(VERIF, 'driver', '*.h')))
    args = [CLANG, '-std=c++14', opt, '-fno-exceptions', '-ffp-contract=off', '-gline-tables-only', '-w', '-c', '-emit-llvm',
            '-D' + CFG[cfg], '-I' + SRC, '-I' + os.path.join(REPO, 'libs/math/include'), '-I' + os.path.join(VERIF, 'driver')] + list(flags)
    if opt == '-O0':
        args += ['-Xclang', '-disable-O0-optnone']
    def one(f):
        key = _hash_files([f], hdr + ' '.join(args[1:]))
        out = os.path.join(BUILD, '%s-%s-%s.bc' % (os.path.basename(f), cfg, key))
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            sh(args + [f, '-o', tmp])
            os.rename(tmp, out)
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


def dump(bcs, pipeline=PIPE, scev=False):
    key = _hash_files([], ' '.join(bcs) + pipeline + str(scev) + tool())
    out = os.path.join(BUILD, 'dump-%s.json' % key)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        sh([tool()] + bcs + ['-pipeline=' + pipeline, '-o', tmp] + (['-scev'] if scev else []))
        os.rename(tmp, out)
    with open(out) as f:
        return json.load(f)


def prune_cache(limit=4 << 30):
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(BUILD + '/*') if os.path.isfile(p)]
    except OSError:
        return
    tot = sum(s for _, s, _ in fs)
    for m, s, p in sorted(fs):
        if tot < limit:
            break
        try:
            os.remove(p); tot -= s
        except OSError:
            pass


class Fn:
    __slots__ = ('n', 'dm', 'norm', 'rt', 'args', 'decl', 'blocks', 'loops', 'file', 'line', 'local', 'loopof', 'header', 'va', 'preds')

    def __init__(s, d, cfg):
        s.n = d['n']; s.dm = d['dm']; s.rt = d['rt']; s.args = d['args']; s.decl = d['decl']; s.local = d['local']; s.va = d['va']
        s.blocks = d.get('blocks', []); s.loops = d.get('loops', []); s.file = d.get('file', ''); s.line = d.get('line', 0)
        s.norm = s.dm.replace('%s::e_float' % cfg, 'EF')
        s.header = {}
        for L in s.loops:
            L['set'] = frozenset(L['b']); s.header[L['h']] = L

    @property
    def loc(s):
        f = s.file
        return '%s:%d' % (os.path.relpath(f, REPO) if f.startswith('/') else f, s.line)


class Module:
    def __init__(s, d, cfg):
        s.cfg = cfg
        s.structs = d['structs']
        s.globals = {g['n']: g for g in d['globals']}
        s.fns = {}
        for f in d['functions']:
            s.fns[f['n']] = Fn(f, cfg)
        s.bynorm = {}
        for f in s.fns.values():
            s.bynorm.setdefault(f.norm, f)
        s.vtable = {'efx': '_ZTVN3efx7e_floatE', 'gmp': '_ZTVN3gmp7e_floatE', 'mpfr': '_ZTVN4mpfr7e_floatE'}[cfg]
        s.efstruct = 'class.%s::e_float' % cfg

    def find(s, norm):
        return s.bynorm.get(norm)

    def need(s, norm):
        f = s.bynorm.get(norm)
        if f is None or f.decl:
            raise Broken('anchor vanished: no definition of %s in the %s configuration' % (norm, s.cfg))
        return f


def load_lib(cfg, driver=True, tables=False, pipeline=PIPE, scev=False, opt='-O0', flags=(), extra=()):
    files = lib_sources(cfg)
    if tables:
        files += lib_sources(cfg, True)
    drv = []
    if driver:
        drv = sorted(glob.glob(os.path.join(VERIF, 'driver', '*.cpp')))
    bcs = compile_bc(files + drv + list(extra), cfg, flags, opt)
    m = Module(dump(bcs, pipeline, scev), cfg)
    vt = m.globals.get(m.vtable)
    if vt is None or 'i' not in vt:
        raise Broken('vtable of %s::e_float not found' % cfg)
    return m
