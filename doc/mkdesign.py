#!/usr/bin/env python3
"""Regenerates DESIGN.md: the text below, what each check says it does, its case counts, and the table of planted bugs.
Run with an interpreter that has numpy (/opt/venv/bin/python)."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = {}
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    props[p['id']] = p
text = {}
cur = None
for line in open(os.path.join(HERE, 'doc', 'properties.md')):
    if line.startswith('## '):
        cur = line.split()[1]
        text[cur] = []
    elif cur:
        text[cur].append(line)
out = [open(os.path.join(HERE, 'doc', 'head.md')).read(), '\n# The properties, one by one\n\n'
       '"Generated" is what the check itself states as its rule (it goes into the evidence file too); the groups are its shards with the '
       'number of cases of the quick tier. The thorough tier generates a multiple of it (`factor`) up to a time limit.\n']
for cid in sorted(props):
    C = importlib.import_module('checks.' + cid.lower()).CHECK
    sh = C.shards('quick')
    out.append(f"\n## {cid} – {props[cid]['title']}\n\n")
    out.append(''.join(text.get(cid, [])).strip() + '\n\n')
    out.append(f"*Generated.* {C.rule}\n\n")
    out.append(f"*Groups.* {', '.join(f'{s['name']} {s['n']}' for s in sh)}; {sum(s['n'] for s in sh)} cases in the quick tier.\n")
out.append('\n' + open(os.path.join(HERE, 'doc', 'tail.md')).read())
out.append('\n| bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n')
catch = json.load(open(os.path.join(HERE, 'doc', 'catches.json')))
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    b = f.split('/')[-2]
    out.append('| ' + ' | '.join([b, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), catch.get(b, m['property'])]) + ' |\n')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
