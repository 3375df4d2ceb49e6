"""Builds drivers from /repo's working tree, keyed by the content of everything that is compiled.

An object is reused only if the command line and the content of every file it was compiled from
(as listed by the compiler) are unchanged; time stamps play no role.
"""
import concurrent.futures, glob, hashlib, json, os, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = os.cpu_count() or 4
DEFS = ['-DSPARQL=1', '-DML=1', '-DANALYTICS=1', '-DSERVER=1', '-DNDEBUG', '-DTRIDENT_VERIF=1']
INC = ['-I' + VERIF + '/shim', '-I' + REPO + '/include', '-I' + REPO + '/rdf3x/include', '-I' + REPO + '/rapidjson/include',
       '-I' + REPO + '/snap', '-I' + REPO + '/snap/glib-core', '-I' + REPO + '/snap/snap-core', '-I' + VERIF + '/drivers']
BASE = ['g++', '-std=c++11', '-w', '-g0', '-fPIC', '-fsigned-char', '-include', 'cstdint', '-pthread'] + DEFS + INC

def g(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out

def group(name):
    """Source groups, globbed as CMakeLists.txt does."""
    if name == 'core':
        return g(*['src/trident/%s/*.cpp' % d for d in ('binarytables', 'files', 'iterators', 'kb', 'model', 'tree', 'utils')]) + [VERIF + '/shim/shim.cpp']
    if name == 'rdf3x':
        return [f for f in g('rdf3x/src/*/*.cpp', 'rdf3x/src/*/*/*.cpp', 'rdf3x/src/*.cpp') if not f.endswith('/main_sparql.cpp')]
    if name == 'sparql':
        return g('src/trident/sparql/*.cpp', 'src/layers/*.cpp') + group('rdf3x')
    if name == 'ana':
        return g('src/snap/*.cpp')
    if name == 'ml':
        return [f for f in g('src/trident/ml/*.cpp') if not f.endswith('/main_ml.cpp')]
    if name == 'server':
        return g('src/trident/server/*.cpp')
    if name == 'infra':
        return g('rdf3x/src/infra/*.cpp') + [REPO + '/rdf3x/src/rts/Scheduler.cpp', REPO + '/rdf3x/src/rts/Operator.cpp']
    if name == 'snap':
        return g('snap/snap-core/Snap.cpp')
    raise KeyError(name)

_h = {}
_hl = threading.Lock()
def fhash(p):
    with _hl:
        if p in _h: return _h[p]
    try:
        d = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    except OSError:
        d = 'missing'
    with _hl: _h[p] = d
    return d

class BuildError(Exception): pass

def compile_one(src, opt):
    cmd = BASE + opt + ['-c', src]
    key = hashlib.sha256('\0'.join(cmd).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, 'obj'); os.makedirs(d, exist_ok=True)
    depf = os.path.join(d, key + '.deps')
    if os.path.exists(depf):
        deps = json.load(open(depf))
        ck = hashlib.sha256(''.join(p + fhash(p) for p in deps).encode()).hexdigest()[:24]
        obj = os.path.join(d, key + '-' + ck + '.o')
        if os.path.exists(obj): return obj
    tmp = os.path.join(d, '%s.%d.%d' % (key, os.getpid(), threading.get_ident()))
    r = subprocess.run(cmd + ['-o', tmp + '.o', '-MD', '-MF', tmp + '.d'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-3000:]))
    txt = open(tmp + '.d').read().replace('\\\n', ' ')
    deps = sorted(set(p for p in txt.split(':', 1)[1].split()))
    ck = hashlib.sha256(''.join(p + fhash(p) for p in deps).encode()).hexdigest()[:24]
    obj = os.path.join(d, key + '-' + ck + '.o')
    for old in glob.glob(os.path.join(d, key + '-*.o')):
        try: os.unlink(old)
        except OSError: pass
    os.rename(tmp + '.o', obj); os.unlink(tmp + '.d')
    with open(tmp + '.j', 'w') as f: json.dump(deps, f)
    os.rename(tmp + '.j', depf)
    return obj

def build(name, main, groups, opt=('-O1',), gopt=None, libs=('-lz', '-llz4', '-lpthread'), extra=(), ldflags=()):
    """Compiles main plus the groups and links build/bin/<name>. gopt: per-group options."""
    items = [(m, list(opt)) for m in ([main] if isinstance(main, str) else main)]
    for gr in groups:
        o = list((gopt or {}).get(gr, opt))
        items += [(s, o) for s in group(gr)]
    items += [(s, list(opt)) for s in extra]
    items.sort(key=lambda it: -os.path.getsize(it[0]) if os.path.exists(it[0]) else 0)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda it: compile_one(*it), items))
    bd = os.path.join(BUILD, 'bin'); os.makedirs(bd, exist_ok=True)
    out = os.path.join(bd, name)
    key = hashlib.sha256('\0'.join(sorted(objs) + list(libs) + list(ldflags)).encode()).hexdigest()
    kf = out + '.key'
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key: return out
    r = subprocess.run(['g++', '-o', out + '.tmp%d' % os.getpid()] + list(ldflags) + sorted(objs) + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('linking %s failed:\n%s' % (name, r.stdout[-3000:]))
    os.rename(out + '.tmp%d' % os.getpid(), out)
    open(kf, 'w').write(key)
    return out
