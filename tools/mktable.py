"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ""
for d in sorted(glob.glob(root + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    n = ' '.join(m['needs'].split()).replace('|', '\\|')
    if len(n) > 150:
        n = n[:147].rsplit(' ', 1)[0] + ' ...'
    rows += f"| {os.path.basename(d[:-1])} | {m['property']} | {n} |\n"
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\| planted bug \| caught by \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*', lambda m: m.group(1) + rows, s)
open(p, 'w').write(s)
