"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (development helper)"""
import json, glob, os
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open('/verif/tools/caught.json'))
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d)
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, 'not run')} |")
p = '/verif/DESIGN.md'; s = open(p).read()
a = s.index('## 7. Planted changes'); b = s.find('\n## ', a + 5)
s = s[:a] + "## 7. Planted changes\n\nEach keeps the repository's tests green; the last column says what the quick check of the property did.\n\n" + '\n'.join(rows) + '\n' + (s[b:] if b > 0 else '')
open(p, 'w').write(s)
