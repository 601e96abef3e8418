#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
NOTE = {
    'P05': 'Wing-Gong style linearizability search of the recorded named-graph history against a register-with-version model.',
    'P03': 'Linearizability of the history across restarts: an acknowledged update must be visible after a crash.',
    'P04': 'Every read during and after updates, write errors and crashes is judged against the register model.',
    'P12': 'Contents against the reference model under eviction, cancellation and load errors; retained bytes measured by the counting allocator.',
    'P16': 'Deadlock is decided exactly (no runnable thread, no timer, no pending I/O); livelock as a step bound under a fair scheduler after faults stopped.',
}
common = ('Sampling: no violation in the seeds explored, not a proof. Real terminus-store, tdb-succinct, tokio and rayon code; '
          'scheduler, clocks, entropy and file system are simulated at the libc boundary. Preemption only at libc calls and (in part of the runs) allocations; '
          'sequentially consistent memory; the disk honours fsync.')
m = {
    'version': 1,
    'setup_cmd': 'bash tools/setup.sh',
    'checks': [
        {
            'property': p['id'],
            'quick_cmd': f"./check {p['id']} quick",
            'thorough_cmd': f"./check {p['id']} thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, faults and crashes of the real code, judged against a reference model',
            'level': 'exploration',
            'level_note': (NOTE[p['id']] + ' ' if p['id'] in NOTE else 'Observations are compared with an executable reference model. ') + common,
        }
        for p in props
    ],
    'not_applicable': [],
    'notes': 'No hooks in /repo: every source of nondeterminism is intercepted at the libc boundary by symbols the harness binary defines. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.json.',
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
