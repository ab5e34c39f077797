"""Prints the table of seeded bugs for DESIGN.md (section 7); the lists of catches are kept by hand below."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = json.load(open(here + '/tools/late.json'))
print('| Seeded bug | What it breaks | Needs | Caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    id = os.path.basename(os.path.dirname(d))
    note = late.get(id, '')
    print('| %s | %s | %s | %s |' % (id, m['what_it_breaks'], m['needs'], m['property'] + (': ' + note if note else '')))
