"""prints the per-property and planted-bug tables of DESIGN.md:  python3 tools/design_tail.py"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(H, 'seeded'))):
    d = json.load(open(os.path.join(H, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d['property'], i, d['needs'], d['what_it_breaks']))
print('| caught by | planted bug | needs | breaks |\n|---|---|---|---|')
print('\n'.join(sorted(rows)))
