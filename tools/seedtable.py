"""Rewrite the table of planted bugs at the end of DESIGN.md (documentation only; no check reads seeded/)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(root, 'tools', 'caught.json')))
rows = ['| bug | property | file | needs | caught by |', '|---|---|---|---|---|']
for name in sorted(os.listdir(os.path.join(root, 'seeded'))):
    base = os.path.join(root, 'seeded', name)
    meta = json.load(open(os.path.join(base, 'meta.json')))
    files = [line.split('/')[-1].strip() for line in open(os.path.join(base, 'patch.diff')) if line.startswith('+++')]
    rows.append('| %s | %s | %s | %s | %s |' % (name, meta['property'], ', '.join(files), meta['needs'].replace('|', '/').replace('\n', ' '), caught.get(name, '?')))
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
start, end = '<!-- seeds -->', '<!-- end seeds -->'
head, rest = text.split(start)
tail = rest.split(end)[1]
open(path, 'w').write(head + start + '\n' + '\n'.join(rows) + '\n' + end + tail)
