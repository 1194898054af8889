"""rewrite the table of planted bugs in DESIGN.md"""
import collections
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    by[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
head = '| check | planted bugs it catches |\n|---|---|\n'
a, b = s.split(head)
b = re.sub(r'\A(\| C\d+ \|.*\n?)+', '', b)
open(p, 'w').write(a + head + ''.join('| {} | {} |\n'.format(c, ', '.join(by[c])) for c in sorted(by)) + b)
