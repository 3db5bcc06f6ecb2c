#!/usr/bin/env python3
"""Builds the simulation workers from /repo's current tree. Objects are cached by content hash."""
import hashlib, json, os, re, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TRR_REPO', '/repo')
OUT = os.environ.get('TRR_BUILD', os.path.join(VERIF, 'build'))
CACHE = os.path.join(OUT, 'cache')
DEFS = ['-std=c++17', '-pthread', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-DSPDLOG_SHARED_LIB', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-w']
LIBS = '-lboost_regex -lboost_system -lboost_program_options -lboost_date_time -lpthread -lcapnp -lkj -lspdlog -lfmt -ldl'.split()
CXX = 'g++'
VARIANTS = {
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'],
    'plain': ['-O1', '-ftrivial-auto-var-init=pattern', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS'],
}
HARNESS = ['-O2', '-g1', '-fno-threadsafe-statics']

def am_sources(path, var):
    t = open(path).read().replace('\\\n', ' ')
    out = []
    for m in re.finditer(r'^\s*' + var + r'\s*\+?=(.*)$', t, re.M):
        out += [w for w in m.group(1).split('#')[0].split() if w.endswith('.cpp') or w.endswith('.c++') or w.endswith('.cc')]
    return out

def repo_sources():
    s = [os.path.join(REPO, 'src', x) for x in am_sources(os.path.join(REPO, 'src/Makefile.am'), 'trRouting_SOURCES')]
    s += [os.path.join(REPO, 'connection_scan_algorithm/src', x) for x in am_sources(os.path.join(REPO, 'connection_scan_algorithm/src/Makefile.am'), 'libcsa_la_SOURCES')]
    if not s: raise RuntimeError('no sources found in Makefile.am')
    return s

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:32]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-4000:]))
    return r.stdout

def capnp_dir():
    """Own copies of the generated schema code (from the .capnp files in the repository)."""
    src = os.path.join(REPO, 'include/capnp')
    files = sorted(f for f in os.listdir(src) if f.endswith('.capnp'))
    key = sha(*[open(os.path.join(src, f), 'rb').read() for f in files])
    d = os.path.join(CACHE, 'capnp-' + key, 'capnp')
    if not os.path.exists(os.path.join(d, 'ok')):
        os.makedirs(d, exist_ok=True)
        need = ['agencyCollection', 'dataSourceCollection', 'dataSource', 'line', 'lineCollection', 'node', 'nodeCollection', 'odTrip', 'odTripCollection', 'pathCollection', 'person', 'personCollection', 'scenarioCollection', 'serviceCollection', 'place', 'placeCollection', 'household', 'householdCollection', 'stationCollection']
        for f in files:
            shutil.copy(os.path.join(src, f), d)
        for n in need:
            if n + '.capnp' in files:
                run(['capnp', 'compile', '-oc++', n + '.capnp'], cwd=d)
        open(os.path.join(d, 'ok'), 'w').write('')
    return os.path.dirname(d)

def deps_hash(src, flags):
    """hash of the preprocessed source"""
    return sha(run([CXX, '-E', '-P'] + flags + [src]))

def compile_one(src, flags, post=None, tag=''):
    # preprocess first: the key is the content of the translation unit, so headers are covered
    pp = run([CXX, '-E'] + [f for f in flags if f not in ('-g1',)] + [src])
    key = sha(pp, ' '.join(flags), tag, VERSION)
    o = os.path.join(CACHE, key + '.o')
    if not os.path.exists(o):
        t = o + '.%d.tmp.o' % os.getpid()
        t1 = time.time(); run([CXX, '-c'] + flags + [src, '-o', t])
        if os.environ.get('TRR_TIMES'): print('%.1f %s %s' % (time.time() - t1, os.path.basename(src), tag), file=sys.stderr)
        if post: post(t)
        os.rename(t, o)
    else: os.utime(o)
    return o
VERSION = '3'

def build(variants=('asan', 'tsan'), log=lambda *a: None):
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    cdir = capnp_dir()
    # our generated schema headers come first so that the build does not depend on ignored build products of the repository
    inc = ['-I' + cdir, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'connection_scan_algorithm/include')]
    srcs = repo_sources()
    sim = os.path.join(VERIF, 'sim')
    def rename_main(o):
        run(['objcopy', '--redefine-sym', 'main=trrouting_main', o])
    jobs = {}
    with ThreadPoolExecutor(max_workers=int(os.environ.get('TRR_JOBS', '8'))) as ex:
        for v in variants:
            fl = DEFS + VARIANTS[v] + ['-include', os.path.join(sim, 'spin_seam.h')] + inc
            order = sorted(srcs, key=lambda s: 0 if 'http_server' in s or 'osrm' in s else 1)
            for s in order: jobs[(v, s)] = ex.submit(compile_one, s, fl, rename_main)
        hs = sorted(f for f in os.listdir(sim) if f.endswith('.cpp'))
        hfl = DEFS + HARNESS + ['-I' + cdir, '-I' + sim]
        for h in hs: jobs[('h', h)] = ex.submit(compile_one, os.path.join(sim, h), hfl)
        cps = sorted(f for f in os.listdir(os.path.join(cdir, 'capnp')) if f.endswith('.capnp.c++'))
        for c in cps: jobs[('c', c)] = ex.submit(compile_one, os.path.join(cdir, 'capnp', c), DEFS + HARNESS + ['-I' + cdir, '-I' + os.path.join(cdir, 'capnp')])
        objs = {k: j.result() for k, j in jobs.items()}
    bins = {}
    for v in variants:
        skip = 'tsanrt.cpp' if v != 'tsan' else 'tsan_stub.cpp'
        o = [objs[(v, s)] for s in srcs] + [objs[('h', h)] for h in hs if h != skip] + [objs[('c', c)] for c in cps]
        key = sha(*o, v, VERSION)
        b = os.path.join(OUT, 'worker-%s-%s' % (v, key))
        if not os.path.exists(b):
            t = b + '.tmp%d' % os.getpid()
            run([CXX, '-pthread', '-no-pie'] + (['-fsanitize=address'] if v == 'asan' else []) + ['-rdynamic', '-o', t] + o + LIBS)
            os.rename(t, b)
        else: os.utime(b)
        bins[v] = b
    prune()
    log('build %.1fs' % (time.time() - t0))
    return bins

def prune(limit=3 << 30):
    ents = []
    for d in (OUT, CACHE):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p): st = os.stat(p); ents.append((st.st_mtime, st.st_size, p))
    tot = sum(e[1] for e in ents)
    now = time.time()
    for m, s, p in sorted(ents):
        if tot <= limit or now - m < 3600: break
        try: os.unlink(p); tot -= s
        except OSError: pass

if __name__ == '__main__':
    try: print(json.dumps(build(tuple(sys.argv[1:]) or ('asan', 'tsan'), log=lambda *a: print(*a, file=sys.stderr))))
    except RuntimeError as e: print(e, file=sys.stderr); sys.exit(2)
