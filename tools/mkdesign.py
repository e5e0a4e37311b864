#!/usr/bin/env python3
"""Generates DESIGN.md from tools/design.md, the property table, the harnesses and the planted bugs."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
out = []
for p in props.PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    if 'na' in p:
        out.append('Not applicable: ' + p['na'] + '\n')
        continue
    out.append('Why tests cannot: %s. Quantified over: %s. Code: %s.\n' % (p['why'], p['quant'], ', '.join('`%s`' % f for f in p['files'])))
    out.append('Bounds and trust: ' + p['note'].replace(props.REAL, 'exact reals (section 1). ') + '\n')
    for f in sorted(glob.glob('%s/harness/%s/*.go' % (root, p['id'].lower()))):
        doc, dirs = [], ''
        for line in open(f):
            if line.startswith('//'):
                t = line[2:].strip()
                if t.startswith('vf:'):
                    dirs += ' ' + t[3:].strip()
                else:
                    doc.append(t)
                continue
            m = re.match(r'func (H_\w+)\(', line)
            if m:
                out.append('- `%s`: %s%s' % (m.group(1), ' '.join(doc) or 'as the one before.', ' [%s]' % dirs.strip() if dirs else ''))
            doc, dirs = [], ''
    out.append('')
caught = json.load(open(here + '/caught.json')) if os.path.exists(here + '/caught.json') else {}
seeded = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    c = caught.get(i)
    seeded.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], 'not tried' if c is None else ', '.join(c) or '**missed**'))
find = []
for l in open(root + '/known-findings.txt'):
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        find.append('- %s, fixed in %s: %s' % m.groups())
    elif l.startswith('{'):
        j = json.loads(l)
        find.append('- %s, known finding (%s, "%s"): %s' % (j['property'], j['harness'], j['label'], j['what']))
s = open(here + '/design.md').read()
missed = [k for k, v in sorted(caught.items()) if not v and os.path.exists(root + '/seeded/' + k)]
s = s.replace('@PROPS@', '\n'.join(out)).replace('@SEEDED@', '\n'.join(seeded)).replace('@FINDINGS@', '\n'.join(find))
s = s.replace('@MISSED@', 'Still missed: ' + ', '.join(missed) + '.' if missed else '')
open(root + '/DESIGN.md', 'w').write(s)
