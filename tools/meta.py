#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; CHECKS = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
def claim(id, technique, level, note):
    CHECKS.append(dict(property=id, quick_cmd='python3-vt /verif/check %s' % id, thorough_cmd='VERIF_TIER=thorough python3-vt /verif/check %s' % id,
                       evidence_file='evidence/%s.json' % id, technique=technique, level={'bounded': 'other'}.get(level, level), level_note=note))
def na(id, reason): NA.append(dict(property=id, reason=reason))
DED = 'contract-based deductive verification of the compiled source'
exec(open(os.path.join(V, 'tools', 'properties.py')).read())
have = {p['id'] for p in P}
assert have == {c['property'] for c in CHECKS} | {n['property'] for n in NA}, have ^ ({c['property'] for c in CHECKS} | {n['property'] for n in NA})
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
json.dump(dict(version=1, setup_cmd='true', checks=CHECKS, not_applicable=NA,
   notes='No hooks in /repo: contracts live in /verif and are checked against the IR that clang produces from the current tree. /repo carries only fix: commits (see known-findings.json).'),
   open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
