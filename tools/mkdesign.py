#!/usr/bin/env python3
"""rewrites the generated tables of DESIGN.md (run by hand; the output is committed)"""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + '/DESIGN.md').read(); M = '<!-- generated -->'
t = t.split(M)[0].rstrip() + '\n\n' + M + '\n'
man = json.load(open(H + '/MANIFEST.json'))
t += '\n## 6. Not claimed\n\n' + ''.join('* **%s** – %s\n' % (x.get('property', x.get('id')), x['reason']) for x in man.get('not_applicable', []))
t += '\n## 7. Planted bugs (every one is reported by the check of its property)\n\n| seed | check | needs | breaks |\n|---|---|---|---|\n'
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d)); t += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m['what_it_breaks'])
t += '\n## 8. Defects of xrtm found by the checks\n\nRepaired ("fix:" commits) and, where any, recorded findings (known-findings.txt):\n\n'
t += ''.join('* ' + l.strip() + '\n' for l in open(H + '/known-findings.txt') if l.strip() and not l.startswith('#'))
open(H + '/DESIGN.md', 'w').write(t)
