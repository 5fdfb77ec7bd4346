"""fill the table of planted bugs in DESIGN.md"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | what breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m.get('caught_by', m['property'])))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- end seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
