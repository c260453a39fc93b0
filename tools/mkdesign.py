#!/usr/bin/env python3
# Writes DESIGN.md from design.head.md, the per-property notes below, checks.txt and seeded/.
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks = {}
for l in open(R + '/harness/checks.txt'):
    l = l.strip()
    if not l or l.startswith('#'):
        continue
    a, _, b = l.partition('#')
    f = a.split()
    checks.setdefault(f[0], []).append((f[1], ' '.join(f[2:]), b.strip()))
N = {}
cur = None
for l in open(R + '/tools/design.props.md'):
    m = re.match(r'^## (C\d\d)', l)
    if m:
        cur = m.group(1)
        N[cur] = ''
    elif cur:
        N[cur] += l
out = open(R + '/tools/design.head.md').read().rstrip() + '\n\n'
out += '# Properties\n\n'
tier = {'q': 'both', 'Q': 'quick', 't': 'thorough'}
for p in props:
    i = p['id']
    out += '## %s %s\n\n%s\n\n' % (i, p['title'], N[i].strip())
    out += '| tier | harness and arguments | bound |\n|---|---|---|\n'
    for t, h, b in checks[i]:
        out += '| %s | `%s` | %s |\n' % (tier[t], h, b)
    out += '\n'
out += open(R + '/tools/design.tail.md').read().rstrip() + '\n\n'
res = {}
for l in open(R + '/tools/seedresults.txt'):
    f = l.split()
    if len(f) >= 3:
        res[f[0]] = f[2]
out += '| planted change | property | caught by its check (quick tier) | what it needs |\n|---|---|---|---|\n'
for d in sorted(glob.glob(R + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    c = {'rc=1': 'yes', 'rc=0': 'no'}.get(res.get(n), 'not run')
    out += '| %s | %s | %s | %s |\n' % (n, m['property'], c, str(m['needs']).replace('|', '/').replace('\n', ' '))
open(R + '/DESIGN.md', 'w').write(out)
