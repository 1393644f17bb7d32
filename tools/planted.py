#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = '<!-- table written by tools/planted.py -->\n'
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
text = text[:text.index(mark) + len(mark)] + '\n| bug | caught by | needs |\n|-----|-----------|-------|\n'
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    text += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/'))
open(path, 'w').write(text)
