#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the texts below, properties.jsonl, levels.json, the planned bugs and their results."""
import glob, json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
os.chdir(V)
INTRO = open('tools/design_intro.md').read()
TEXT = {}
cur = None
for l in open('tools/design_props.md'):
    if l.startswith('## '):
        cur = l[3:].strip(); TEXT[cur] = ''
    elif cur: TEXT[cur] += l
out = [INTRO.rstrip(), '']
levels = json.load(open('tools/levels.json'))
for l in open('properties.jsonl'):
    p = json.loads(l); i = p['id']
    out += [f'### {i} {p["title"]}', '', f'*{levels[i]["technique"]}* (check: `checks/{i.lower()}.py`)', '', TEXT.pop(i).strip(), '']
assert not TEXT, TEXT.keys()
out += ['## Genuine defects', '', 'All were shown with a failing input or history against the real code, and repaired with a small "fix:" commit in /repo. They are also listed in `known_findings.txt` (as `fixed:`, which suppresses nothing). There is no unrepaired finding.', '',
        '| property | commit | what was wrong |', '|---|---|---|']
for l in open('known_findings.txt'):
    if l.startswith('fixed: '):
        _, prop, h, what = l.strip().split(' ', 3)
        out.append(f'| {prop.split("=")[1]} | {h} | {what} |')
out += ['', '## Planted bugs', '', 'Each is a change of the original code that compiles, passes the stable tests, and has a demonstration; see `seeded/<id>/`. '
        'The column "caught" names the check that reports it. `tools/bug_results.json` keeps the results of the last run of `tools/try_bugs.sh`.', '',
        '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
res = json.load(open('tools/bug_results.json')) if os.path.exists('tools/bug_results.json') else {}
for d in sorted(glob.glob('seeded/*/')):
    i = os.path.basename(d[:-1]); m = json.load(open(d+'meta.json'))
    out.append(f'| {i} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {res.get(i, "not run")} |')
out += ['', open('tools/design_tail.md').read().rstrip(), '']
open('DESIGN.md', 'w').write('\n'.join(out))
