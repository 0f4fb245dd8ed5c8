#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the harness decides."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
have = re.findall(r'\("(C\d+)"', (root / 'mc/src/props/mod.rs').read_text())
props = [json.loads(l) for l in (root / 'properties.jsonl').read_text().splitlines()]
notes = json.loads((root / 'tools/level_notes.json').read_text())
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'technique': notes[i]['technique'],
            'level': 'model_checking',
            'level_note': notes[i]['note'],
        })
    else:
        na.append({'property': i, 'reason': 'the check is not built yet'})
m = {
    'version': 1,
    'setup_cmd': './check.sh --build',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check builds mc/ (a harness crate with a path dependency on /repo) from the working tree of /repo and explores the bounded spaces of one property on the real library. No hooks in /repo are needed: everything is reached through the public interface.',
}
(root / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
