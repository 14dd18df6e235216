"""Rewrites section 4 of DESIGN.md from the meta.json files of the planted bugs."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}  # id -> what the check lacked when the bug was planted
p = os.path.join(root, 'tools/missed_first.json')
if os.path.exists(p): missed = json.load(open(p))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {'missed at first: ' + missed[i] if i in missed else ''} |")
head = f"""## 4. Planted bugs

{len(rows)} changes, each of which compiles and passes the existing tests; each was planted from the text of a property and the
code, confirmed with its demonstration in a scratch copy, and is caught by the quick check of the property in the second
column. The last column tells which ones the checks missed when they were planted and what was added.

| id | caught by | needs | history |
|---|---|---|---|
"""
f = os.path.join(root, 'DESIGN.md')
s = open(f).read()
if '## 4. Planted bugs' in s: s = s[:s.index('## 4. Planted bugs')]
s = s.rstrip('\n') + '\n\n' + head + '\n'.join(rows) + '\n'
open(f, 'w').write(s)
