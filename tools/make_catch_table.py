#!/usr/bin/env python3
"""Rewrite sections 6 and 8 of DESIGN.md (planted bugs; properties not claimed) from seeded/*/meta.json and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(HERE + '/DESIGN.md').read()
rows = ['| bug | property | what it needs to show | caught by |', '|---|---|---|---|']
missed = json.load(open(HERE + '/tools/missed.json')) if os.path.exists(HERE + '/tools/missed.json') else {}
for bid in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, bid)))
    rows.append('| %s | %s | %s | %s |' % (bid, m['property'], m['needs'].replace('\n', ' ').replace('|', '/'),
                                           missed.get(bid, m['property'] + ' quick')))
titles = {}
for line in open(HERE + '/properties.jsonl'):
    p = json.loads(line)
    titles[p['id']] = p['title']
na = ['* **%s** %s: %s.' % (n['property'], titles[n['property']], n['reason'])
      for n in json.load(open(HERE + '/MANIFEST.json'))['not_applicable']]
for name, body in (('catches', rows), ('not-applicable', na)):
    a, b = '<!-- %s -->\n' % name, '<!-- end %s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + '\n'.join(body) + '\n' + text[j:]
open(HERE + '/DESIGN.md', 'w').write(text)
