#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
hook = "0cdcda5"
full = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
JOURNAL = "the real parser is run on every journal of the bounded families and the resulting object graph is compared with an independent reference model"
tech = {
 'C06': "bounded exhaustive exploration of the real code: every operation sequence (register, look up, read) up to the depth plus " + JOURNAL,
 'C07': "bounded exhaustive exploration of the real code: every operation sequence up to the depth under a poisoning, never-reusing allocator; links compared as addresses; plus " + JOURNAL,
 'C08': "bounded exhaustive exploration of the real code: every request sequence up to the depth plus " + JOURNAL,
 'C13': "bounded exhaustive exploration of the real code: every layout with up to k departures from the default, all compared with the model of the default",
 'C14': "fault/schedule enumeration on the real code: every read schedule (cuts, short reads, interruptions, buffer ends), split and include nesting within the bounds",
 'C16': "explicit enumeration of all rate graphs within the bounds, each executed on the real pool and compared with all shortest chains; plus " + JOURNAL,
 'C17': "bounded exhaustive exploration of the real code: every operand pair and operation sequence over the alphabet against exact rational arithmetic",
 'C18': "bounded exhaustive exploration of the real code: every combination of amount, cost, form, lot, moment against exact rational arithmetic",
 'C19': "bounded exhaustive exploration of the real code and executable: every arrangement of command and options within the bounds",
 'C20': "bounded exhaustive exploration of the real code with the hash seed under control until every internal order of the siblings was seen; plus " + JOURNAL,
 'C21': "bounded exhaustive exploration of the real code: every placement of every defect, every calendar date, every ambiguous transaction, every token sequence of a posting, header and price line; must not complete normally; plus " + JOURNAL,
 'C22': "fault enumeration on the real code: every point of failure, error kind, chunk size and bad byte position within the bounds, by every way of delivery; must not complete normally",
}
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} quick',
        'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': "model checking: " + tech.get(i, "bounded exhaustive exploration of the real code: " + JOURNAL),
        'level': 'model_checking',
        'level_note': "Complete within the alphabets and bounds stated in the evidence file and DESIGN.md; nothing is sampled and the deciding executions are executions of /repo's own code. "
                      "Trusts the reference model (mc/src/model.rs), the observation code (mc/src/obs.rs), rustc 1.85.1 and rust_decimal's and chrono's printing of values. Says nothing beyond the bounds.",
    })
m = {
    'version': 1,
    'setup_cmd': './check.sh --build',
    'hooks': {'guard': 'cfg(ledger_verif)', 'enable': 'RUSTFLAGS="--cfg ledger_verif" (check.sh sets it; if that does not build it falls back to the public API only)', 'source_commits': full},
    'checks': checks,
    'not_applicable': [],
    'notes': 'One harness (mc/), one command per property. See DESIGN.md. known_findings.txt lists the one recorded defect (C04) and the repaired ones.',
}
open(os.path.join(here, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1, ensure_ascii=False) + '\n')
