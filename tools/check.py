#!/usr/bin/env python3
"""Builds the simulator from /repo's current tree and explores one property.
   check.py --prop C14 --tier quick|thorough        exit 0: held, 1: VIOLATION, 2: the machinery failed
   check.py --replay FILE                           replays a recorded violation"""
import argparse, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
VERIF = B.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')
# workers per build variant, and seconds of exploration
PLAN = {
    'C13': ({'plain': 8}, 70, 600), 'C14': ({'tsan': 8}, 80, 600), 'C15': ({'asan': 8}, 70, 600), 'C16': ({'plain': 8}, 75, 600),
    'C17': ({'asan': 8}, 80, 620), 'C18': ({'asan': 5, 'plain': 3}, 75, 600), 'C19': ({'plain': 8}, 65, 500), 'C20': ({'asan': 8}, 75, 600),
}
PLAN_THOROUGH = {'C13': {'plain': 5, 'asan': 2, 'tsan': 1}, 'C14': {'tsan': 6, 'asan': 2}, 'C15': {'asan': 4, 'plain': 3, 'tsan': 1}, 'C16': {'plain': 6, 'asan': 2}, 'C17': {'asan': 6, 'plain': 2}, 'C18': {'plain': 4, 'asan': 4}, 'C19': {'plain': 7, 'asan': 1}, 'C20': {'asan': 4, 'plain': 2, 'tsan': 2}}
REAL = ['all of /repo/src and /repo/connection_scan_algorithm/src, main() included', 'Simple-Web-Server and Simple-Web-Client (include/server_http.hpp, client_http.hpp)', 'Boost.Asio, Cap\'n Proto readers, nlohmann::json, spdlog', 'glibc/libstdc++ above the interposed calls']
STUB = ['threads run one at a time under a seeded scheduler (pthread, condition variables, rwlocks, once, futex)', 'clock and timers (simulated)', 'sockets, epoll, eventfd, timerfd, name resolution (simulated network)', 'file open/read/stat below the cache directory (simulated disk)', 'HTTP clients (scripted actors)', 'walking router (scripted actor with a table and injected faults)']
RULES = {
    'C13': 'A case is a random network of several scenarios and a random history of route/alternatives/summary/accessibility requests (repeated, invalid, aborted, with a failing router), every response compared byte for byte with a fresh idle server',
    'C14': 'A case is a random network and rounds of 2 to 9 concurrent requests on 2 to 8 server threads under a seeded scheduler that preempts at synchronisation points and at memory accesses; every response compared byte for byte with an idle server, happens-before races and uses of freed memory reported',
    'C15': 'A case is a history of requests and /updateCache refreshes over a random chain of datasets; every response compared byte for byte with a server freshly started on the files then on disk',
    'C16': 'A case is a random dataset serialised to cache files (with short reads and EINTR while loading) and requests whose answers are recomputed from the abstract dataset by an independent reference router and validator',
    'C17': 'A case is a valid cache directory with one or several faults (deleted, empty, truncated, bit-flipped, zeroed, unreadable files; cross-file inconsistencies) at start-up or before /updateCache, followed by requests',
    'C18': 'A case is a batch of query strings built from the documented parameters (present, absent, duplicated, malformed, extreme) and /updateCache requests, on ready and not-ready data, over fragmented and delayed connections',
    'C19': 'A case is a random network and pairs of /v2/route and /v2/summary requests with the same parameters, related to each other and to the dataset',
    'C20': 'A case is a random network on the OSRM client and rounds of requests with scripted router faults, followed by recovery; unaffected and later answers compared byte for byte with a server that never saw a fault',
}

def env():
    return {'PATH': '/usr/bin:/bin', 'LANG': 'C'}

def known(prop):
    try: return [k for k in json.load(open(KNOWN)) if k.get('property') == prop and k.get('status') == 'known']
    except FileNotFoundError: return []

def replay(path, quiet=False, verbose=False):
    j = json.load(open(path))
    b = B.build((j['build'],))[j['build']]
    r = subprocess.run([b, '--build', j['build'], '--replay', path] + (['--verbose', '1'] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env())
    out = r.stdout.decode(errors='replace').strip()
    if not quiet: print(out)
    try: res = json.loads(out.split('\n')[-1])
    except ValueError: res = {'violation': False, 'end': 'the replay printed nothing: ' + r.stderr.decode(errors='replace')[-500:]}
    return j, res

def main():
    a = argparse.ArgumentParser(); a.add_argument('--prop'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1'))); a.add_argument('--seconds', type=float); a.add_argument('--replay'); a.add_argument('--verbose', action='store_true')
    a.add_argument('--builds')
    o = a.parse_args()
    if o.replay:
        j, r = replay(o.replay, verbose=o.verbose)
        if r.get('violation'): print('VIOLATION property=%s replay=%s' % (j['property'], o.replay)); return 1
        return 0
    t0 = time.time(); p = o.prop
    plan, qs, ts = PLAN[p]
    if o.tier == 'thorough': plan = PLAN_THOROUGH.get(p, plan)
    if o.builds: plan = {b: int(n) for b, n in (x.split(':') for x in o.builds.split(','))}
    secs = o.seconds or (qs if o.tier == 'quick' else ts)
    try: bins = B.build(tuple(plan), log=lambda *x: print(*x, flush=True))
    except RuntimeError as e: print(e, file=sys.stderr); return 2
    tb = time.time() - t0
    if o.tier == 'thorough': secs = max(60, min(secs, 840 - tb - 90))
    else: secs = min(secs, max(40, 700 - tb))
    rd = os.path.join(os.environ.get('TRR_OUT') or os.path.join(VERIF, 'build'), 'replay', p); shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
    procs = []; n = sum(plan.values()); w = 0
    for b, k in plan.items():
        for _ in range(k):
            rep = os.path.join(rd, 'report-%d.json' % w)
            err = open(os.path.join(rd, 'stderr-%d.txt' % w), 'wb')
            procs.append((b, w, rep, subprocess.Popen([bins[b], '--build', b, '--prop', p, '--tier', o.tier, '--seed', str(o.seed), '--worker', str(w), '--workers', str(n), '--seconds', str(secs), '--min-seconds', '40' if o.tier == 'quick' else '60', '--out', rd, '--report', rep, '--known', KNOWN], env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err))); w += 1
    reps = []; bad = 0; t1 = time.time()
    for b, w, rep, pr in procs:
        try: pr.wait(timeout=max(5, min(t1 + secs + 260, t0 + 800) - time.time()))
        except subprocess.TimeoutExpired: pr.kill()
        try: reps.append((b, json.load(open(rep))))
        except (OSError, ValueError): bad += 1; print('worker %d gave no report: %s' % (w, open(os.path.join(rd, 'stderr-%d.txt' % w)).read()[-400:]), file=sys.stderr)
    if not reps: return 2
    def tot(k): return sum(r[k] for _, r in reps)
    def merge(k):
        d = {}
        for _, r in reps:
            for x, v in r[k].items(): d[x] = d.get(x, 0) + v
        return dict(sorted(d.items()))
    def union(k): return len(set().union(*[set(r[k]) for _, r in reps]))
    kn = known(p); kh = merge('known_hits')
    # every violation is replayed in a fresh process before it is reported
    out, seen, unconfirmed = [], set(), []
    for b, r in reps:
        for v in r['violations']:
            if v['sig'] in seen: continue
            j, res = replay(v['replay'], quiet=True)
            ok = res.get('violation') and res.get('sig') == v['sig']
            if not ok and res.get('violation'): ok = all(replay(v['replay'], quiet=True)[1].get('violation') for _ in range(2))   # e.g. a wild read that ends differently
            if ok: seen.add(v['sig']); out.append(v)
            else: unconfirmed.append((v['what'], res))
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (p, k['what']))
    for v in out:
        print('%s' % v['what'][:1500])
        print('VIOLATION property=%s replay=%s' % (p, v['replay']))
    for u in unconfirmed: print('note: not reported, the replay did not repeat it: %s -> %s' % (u[0][:300], str(u[1])[:300]))
    wall = time.time() - t0; cases = tot('cases'); runs = tot('runs'); ew = max(r['wall'] for _, r in reps)
    samples = [s for _, r in reps for s in r['samples']][:3]
    if not samples: samples = [{'note': 'no sampled case'}]
    cov = {'evaluations': cases, 'distinct_nontrivial': union('nt_traces'),
           'rule': RULES[p] + '. Non-trivial: the server started and answered at least one request with 200; distinct by the hash of the complete event trace (scheduling, network, disk and answers).',
           'samples': samples, 'simulated_runs': runs, 'baseline_runs': tot('baseline_runs'), 'responses_received': tot('responses'), 'runs_per_hour': int(runs * 3600 / max(1, ew)), 'seeds_per_hour': int(cases * 3600 / max(1, ew)),
           'simulated_seconds': round(tot('sim_seconds'), 1), 'distinct_traces': union('traces'), 'distinct_answer_orders': union('orders'), 'distinct_lock_orders_of_the_shared_cache': union('caches'),
           'faults_injected': merge('faults'), 'scheduler_and_io': merge('stats'), 'oracle_counters': merge('counters'), 'run_ends': merge('ends'), 'repeated_for_determinism': tot('det_checked'), 'not_repeatable': tot('det_bad') + tot('unrepro') + len(unconfirmed),
           'known_finding_hits': kh, 'workers': {b: k for b, k in plan.items()}, 'workers_without_report': bad, 'build_s': round(tb, 1), 'components_real': REAL, 'components_simulated': STUB}
    ed = os.path.join(os.environ.get('TRR_OUT') or VERIF, 'evidence'); os.makedirs(ed, exist_ok=True)
    json.dump({'property': p, 'tier': o.tier, 'seed': o.seed, 'level': 'exploration', 'coverage': cov, 'assumptions': ['sequentially consistent memory (weak-memory reorderings are covered only through the happens-before race check)', 'generated datasets are small (up to about 14 stops and 12 lines; a few have up to 320 stops)'], 'wall_s': round(wall, 1), 'violations': len(out)}, open(os.path.join(ed, p + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d runs, %.0f simulated s, %d violations, %.0f s (build %.0f s)' % (p, o.tier, cases, runs, tot('sim_seconds'), len(out), wall, tb))
    if unconfirmed and not out: return 2
    return 1 if out else 0

if __name__ == '__main__':
    try: r = main()
    except Exception:
        import traceback; traceback.print_exc(); r = 2
    sys.exit(r)
