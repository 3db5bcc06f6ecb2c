#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = sys.argv[1:] or ['C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20']
T = {
 'C13': 'deterministic simulation: seeded request histories against the real server, differential against a fresh simulated server',
 'C14': 'deterministic simulation: seeded thread schedules (preemption at synchronisation and memory accesses), happens-before race and lifetime check, differential against an idle simulated server',
 'C15': 'deterministic simulation: seeded histories of requests, disk swaps and refreshes, differential against a server freshly started on the same simulated disk',
 'C16': 'deterministic simulation: real server on a simulated disk (short reads, EINTR) and walking router, answers checked against an independent executable reference model',
 'C17': 'deterministic simulation with disk-fault injection (missing, empty, truncated, flipped, zeroed, unreadable files, cross-file inconsistencies) at start-up and before refreshes',
 'C18': 'deterministic simulation: seeded query strings over a faulty simulated network, answers checked against an executable classification model',
 'C19': 'deterministic simulation: seeded concurrent and sequential route/summary pairs on the real server, related to each other and to the dataset',
 'C20': 'deterministic simulation with walking-router fault sequences (refusals, resets, truncation, bad bodies, partial tables) and recovery, differential against a never-faulted server',
}
G = ' Seeded search, not enumeration: a pass means that no explored execution violated it. Trusts the simulator (scheduler, network, disk, clock stand-ins), sequentially consistent memory and the baseline/model named here.'
NOTE = {
 'C13': 'Every response of thousands of histories equals the response of a fresh idle single-threaded server (same code, so a defect present on a fresh server is out of scope of this property).' + G,
 'C14': 'Every response of thousands of seeded interleavings equals that of an idle server; data races are found by happens-before on every instrumented access, uses of freed memory by shadow state.' + G,
 'C15': 'Every response after a refresh equals that of a server freshly started on the files then on disk; memory errors by AddressSanitizer.' + G,
 'C16': 'Status, reason and times equal those of an independent reference router over the abstract dataset wherever the statement determines them; every itinerary is validated against the dataset; files are written by an independent serialiser.' + G,
 'C17': 'Start-up and refresh on faulted directories never crash, hang or trip AddressSanitizer, the missing kind is named, and the remaining data are served as a directory without the faulty part would be.' + G,
 'C18': 'Framing, status, error code, echo, defaults and no-limit equivalences are checked against an executable model of the documentation; lenient where the documentation leaves a choice.' + G,
 'C19': 'Summary and route answers of the same parameters are related to each other and to the dataset.' + G,
 'C20': 'Unaffected and later requests answer as on a never-faulted server, affected ones with a documented no-route or query error (or the answer for the stops whose entries did arrive).' + G,
}
NA = 'Pure function of one dataset and one query: the statement involves no schedule, clock, I/O, fault or second party, so there is nothing for a simulator to inject or reorder; deciding it would be input generation under another name.'
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in T and i in CLAIM:
        m['checks'].append({'property': i, 'level': 'exploration', 'technique': T[i], 'level_note': NOTE[i], 'quick_cmd': 'python3 tools/check.py --prop %s --tier quick' % i, 'thorough_cmd': 'python3 tools/check.py --prop %s --tier thorough' % i})
    else: m['not_applicable'].append({'property': i, 'reason': NA if i not in T else 'check under construction'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
