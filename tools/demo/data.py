#!/usr/bin/env python3
"""Writes small cache directories for the demonstrations: a dataset described here, serialised by the simulator's own writer."""
import json, os, subprocess, sys, tempfile, uuid as U
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
NS = U.UUID('12345678-1234-5678-1234-567812345678')
def uid(name): return str(U.uuid5(NS, name))
class Data:
    def __init__(self):
        self.nodes, self.lines, self.paths, self.scenarios, self.services, self.agencies, self.sources = [], [], [], [], [], [], []
    def node(self, name, x, y, foot=()):
        """x and y in metres from a corner of the city; foot: (other, seconds, metres)"""
        self.nodes.append({'uuid': uid(name), 'id': 100 + len(self.nodes), 'code': 'C' + name, 'name': 'Stop ' + name, 'iid': 'I' + name, 'lat': int(round((45.5 + y / 111000) * 1e6)), 'lon': int(round((-73.6 + x / 78000) * 1e6)), 'foot': [[uid(name), 0, 0]] + [[uid(o), t, d] for o, t, d in foot], 'cut': [0, 0]}); return self
    def service(self, name): self.services.append([uid(name), name, '2020-01-01', '2030-01-01']); return self
    def agency(self, name): self.agencies.append([uid(name), name, 'Agency ' + name]); return self
    def line(self, name, agency, stops, trips, mode='bus', same=0, dist=None, service=None):
        """trips: list of (name, service, [(arr, dep), ...]) or with board / unboard lists"""
        pu = uid('path' + name); n = len(stops)
        self.paths.append({'uuid': pu, 'line': uid(name), 'dir': 'outbound', 'iid': 'P' + name, 'nodes': [uid(s) for s in stops], 'tt': [60] * (n - 1), 'dist': dist or [500] * (n - 1), 'has_dist': True, 'data': ''})
        by = {}
        for t in trips:
            nm, sv, tm = t[:3]; b = t[3] if len(t) > 3 else [1] * n; u = t[4] if len(t) > 4 else [1] * n
            by.setdefault(sv, []).append({'uuid': uid('trip' + nm), 'path': pu, 'arr': [a for a, _ in tm], 'dep': [d for _, d in tm], 'board': b, 'unboard': u})
        self.lines.append({'uuid': uid(name), 'agency': uid(agency), 'mode': mode, 'short': name, 'long': 'Line ' + name, 'iid': 'L' + name, 'same': same, 'schedules': [{'uuid': uid('sch' + name + s), 'service': uid(s), 'periods': [v]} for s, v in by.items()]}); return self
    def scenario(self, name, services, **k):
        s = {'uuid': uid(name), 'name': name, 'services': [uid(x) for x in services], 'sim': ''}
        for x in ('oa', 'ol', 'om', 'on', 'xa', 'xl', 'xm', 'xn'): s[x] = [v if x[1] == 'm' else uid(v) for v in k.get(x, [])]
        self.scenarios.append(s); return self
    def json(self): return {'agencies': self.agencies, 'lines': self.lines, 'nodes': self.nodes, 'paths': self.paths, 'scenarios': self.scenarios, 'services': self.services, 'sources': self.sources}
    def write(self, out, faults=()):
        import build as B
        b = os.environ.get('TRR_WORKER') or B.build(('plain',), log=lambda *x: None)['plain']
        case = {'build': 'plain', 'prop': 'C13', 'cacheAll': False, 'debug': False, 'euclid': True, 'extra': None, 'threads': 1, 'variant': '', 'datasets': [self.json()], 'images': [{'dataset': 0, 'faults': list(faults)}], 'steps': [], 'policy': {'seed': 1, 'mem_gap': 0, 'mem_max': 0, 'p_accept_err': 0, 'p_delay': 0, 'p_eintr': 0, 'p_frag': 0, 'p_jump': 0, 'p_short': 0, 'p_spurious': 0, 'p_switch': 0, 'pct': 0, 'sndbuf': 65536}}
        with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
            json.dump({'case': case}, f); f.flush(); os.makedirs(out, exist_ok=True)
            r = subprocess.run([b, '--replay', f.name, '--dump-files', out], env={'PATH': '/usr/bin:/bin'}); assert r.returncode == 0
def hop(*times):
    """[(arr, dep)] with no dwell"""
    return [(t, t) for t in times]
