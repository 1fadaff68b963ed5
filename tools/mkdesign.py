"""Writes DESIGN.md from tools/design/*.md, the registered contracts, known_findings.json, seeded/ and bugresults.json."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyvc import concrete_load
T = os.path.join(V, 'tools', 'design')
rd = lambda n: open(os.path.join(T, n)).read().rstrip() + '\n'
ns = {}
exec(rd('props.py'), ns)
out = [rd('head.md')]
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    cs = concrete_load.load_contracts(i)
    fns = sorted({f for c in cs for f in c['functions']})
    out.append('### %s — %s\n\n%s\n' % (i, p['title'], ns['D'][i]))
    for c in cs:
        d = ' '.join(c['doc'].split())
        b = (' **Bound%s:** %s.' % (' (supplement to an unbounded contract)' if c['supplement'] else '', c['bound'])) if c['bound'] else ''
        s = '' if c['symbolic'] else ' *(sampled only)*'
        out.append('- `%s` — %s.%s%s' % (c['name'], d.rstrip('.') or 'see the statement', b, s))
    a = sorted({x for c in cs for x in c['assumes']})
    if a:
        out.append('\nAssumed: ' + '; '.join(a) + '.')
    out.append('Functions under contract: %d (%s).\n' % (len(fns), ', '.join('`%s`' % f.split(':')[1] for f in fns[:8]) + (', …' if len(fns) > 8 else '')))
out.append(rd('mid.md'))
for k in json.load(open(os.path.join(V, 'known_findings.json'))):
    out.append('- %s: %s (`%s`): %s' % (k['property'], k['status'], k.get('commit', '-'), k['what']))
out.append('\n' + rd('bugs.md'))
res = {}
rp = os.path.join(V, 'tools', 'bugresults.json')
if os.path.exists(rp):
    res = json.load(open(rp))
out.append('| change | property | needs | caught by |\n|---|---|---|---|')
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    r = res.get(b, {})
    c = '**missed**' if r.get('rc') == 0 else ('?' if not r else '; '.join(r['failed'][:2]))
    out.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), c.replace('|', '/')))
out.append('\n' + rd('tail.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
