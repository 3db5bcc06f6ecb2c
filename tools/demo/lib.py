"""Runs the built server on a scratch copy of a small cache directory and asks it over the loopback network."""
import json, os, shutil, signal, socket, subprocess, sys, tempfile, threading, time, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = tempfile.mkdtemp(prefix='demo-')
_procs = []
def _end():
    for p in _procs:
        if p.poll() is None: p.kill()
    shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_end)
signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))

def free_port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p

def cache(name):
    """a scratch copy of a cache directory beside the demo"""
    d = os.path.join(SCRATCH, 'cache-' + name + '-' + str(time.time_ns())); shutil.copytree(os.path.join(HERE, name), d); return d

def put(name, d):
    """replaces the files of a scratch cache directory"""
    for e in os.listdir(d):
        p = os.path.join(d, e)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    shutil.copytree(os.path.join(HERE, name), d, dirs_exist_ok=True)

class Server:
    def __init__(self, cachedir, *opts, binary='src/trRouting', env=None, timeout=60):
        self.port = free_port(); self.log = open(os.path.join(SCRATCH, 'log-%d' % self.port), 'w+')
        o = ['--port=%d' % self.port, '--cachePath=' + cachedir] + list(opts)
        if not any(x.startswith('--useEuclidean') for x in o) and not any(x.startswith('--osrm') for x in o): o.append('--useEuclideanDistance=true')
        if not any(x.startswith('--threads') for x in o): o.append('--threads=1')
        self.p = subprocess.Popen([os.path.join(os.getcwd(), binary)] + o, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=SCRATCH, env=env)
        _procs.append(self.p); t = time.time()
        while time.time() - t < timeout:
            if self.p.poll() is not None: break
            try: socket.create_connection(('127.0.0.1', self.port), 1).close(); return
            except OSError: time.sleep(0.05)
    def alive(self):
        return self.p.poll() is None
    def get(self, target, timeout=20):
        """(status, body), or None when no complete answer came"""
        try:
            s = socket.create_connection(('127.0.0.1', self.port), timeout); s.settimeout(timeout)
            s.sendall(('GET ' + target + ' HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n').encode())
            b = b''
            while b'\r\n\r\n' not in b:
                x = s.recv(65536)
                if not x: return None
                b += x
            head, body = b.split(b'\r\n\r\n', 1)
            n = [int(l.split(b':')[1]) for l in head.split(b'\r\n') if l.lower().startswith(b'content-length:')]
            while n and len(body) < n[0]:
                x = s.recv(65536)
                if not x: return None
                body += x
            s.close(); return int(head.split()[1]), (body[:n[0]] if n else body).decode(errors='replace')
        except OSError: return None
    def stop(self):
        if self.p.poll() is None: self.p.kill()
        self.p.wait()

class Router:
    """a walking router: table(source, points) -> (durations, distances), or fault(connection, request) -> True when it answered itself"""
    def __init__(self, table, fault=None):
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.l.bind(('127.0.0.1', 0)); self.l.listen(64); self.port = self.l.getsockname()[1]
        self.table = table; self.fault = fault; self.n = 0
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while True:
            c, _ = self.l.accept(); threading.Thread(target=self.one, args=(c,), daemon=True).start()
    def one(self, c):
        try:
            b = b''
            while b'\r\n\r\n' not in b:
                x = c.recv(65536)
                if not x: c.close(); return
                b += x
            path = b.split()[1].decode(); self.n += 1
            if self.fault and self.fault(c, path): c.close(); return
            pts = [tuple(map(float, x.split(','))) for x in path.split('?')[0].rsplit('/', 1)[1].split(';')]
            du, di = self.table(pts[0], pts)
            body = json.dumps({'code': 'Ok', 'durations': [du], 'distances': [di]}).encode()
            c.sendall(b'HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(body) + body); c.close()
        except OSError: pass

def reply(c, body, status='200 OK'):
    body = body.encode() if isinstance(body, str) else body
    c.sendall(('HTTP/1.1 %s\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % (status, len(body))).encode() + body)

def metres(a, b):
    import math
    return math.hypot((a[0] - b[0]) * 78000, (a[1] - b[1]) * 111000)
def walk(source, points):
    d = [metres(source, p) for p in points]; return [round(x / 1.4, 1) for x in d], [round(x, 1) for x in d]

import uuid as _U
def uid(name): return str(_U.uuid5(_U.UUID('12345678-1234-5678-1234-567812345678'), name))
def at(x, y): return '%.6f,%.6f' % (-73.6 + x / 78000, 45.5 + y / 111000)
def query(kind, scenario, time, origin=None, destination=None, place=None, **more):
    p = {'scenario_id': uid(scenario) if scenario else None, 'time_of_trip': time, 'origin': origin and at(*origin), 'destination': destination and at(*destination), 'place': place and at(*place)}
    p.update(more); return '/v2/%s?' % kind + '&'.join('%s=%s' % (k, v) for k, v in p.items() if v is not None)
PERTURB = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <stdlib.h>
#include <time.h>
/* widens the windows between critical sections */
static void pause_(void) { static __thread unsigned s; if (!s) s = (unsigned)time(0) ^ (unsigned)(unsigned long)&s; usleep(rand_r(&s) % 4000); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { static int (*f)(pthread_rwlock_t *); if (!f) f = dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); int r = f(l); pause_(); return r; }
'''
def perturbed():
    """an environment in which a thread pauses at random after it releases a reader-writer lock"""
    src, so = os.path.join(SCRATCH, 'p.c'), os.path.join(SCRATCH, 'p.so'); open(src, 'w').write(PERTURB)
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', so, src, '-ldl']); return dict(os.environ, LD_PRELOAD=so)
def many(server, targets, threads, seconds):
    """asks the targets over and over from several clients: a list of (target, answer)"""
    out = []; end = time.time() + seconds
    def run(k):
        n = k
        while time.time() < end and server.alive():
            t = targets[n % len(targets)]; out.append((t, server.get(t))); n += 1
    l = [threading.Thread(target=run, args=(k,)) for k in range(threads)]
    [t.start() for t in l]; [t.join() for t in l]; return out

def finish(ok, what=''):
    print('ok' if ok else 'BROKEN', what); sys.stdout.flush(); sys.exit(0 if ok else 1)
