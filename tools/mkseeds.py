"""Writes the table of seeded changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, 'DESIGN.md')
t = open(p).read().split('\n## Seeded changes\n')[0].rstrip() + '\n'
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    cut = lambda s: (s if len(s) < 130 else s[:127] + '...').replace('|', '/')
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {cut(m['needs'])} |")
t += '\n## Seeded changes\n\nEvery one is caught by the quick tier of its property\'s check (most by Q01 or a neighbour as well).\n\n| change | property, caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(t)
