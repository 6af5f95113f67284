"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read().split('## 3. Planted bugs')[0].rstrip() + '\n\n'
s += '## 3. Planted bugs\n\nEach is caught by the check of its own property (`tools/seedtest.sh ID`); the column says by what:\n`replayed` = a failing input on the real code, `obligation` = a failed proof obligation as well.\n\n'
s += '| seed | breaks | needs | caught by |\n|---|---|---|---|\n'
try: how = json.load(open(os.path.join(V, 'tools', 'caught.json')))
except FileNotFoundError: how = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    s += f"| {i} | {m['what_it_breaks']} | {m['needs']} | {how.get(i, '')} |\n".replace('\n|', '|', 0)
open(p, 'w').write(s)
