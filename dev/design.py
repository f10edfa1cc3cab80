"""Composes DESIGN.md from design_head.md, props.py, known_findings.json, seeded/ and design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/engine']
import props
out = open(V + '/dev/design_head.md').read()
out += '## 2. Properties\n\nFormat: what is claimed; how it is decided (number of decision-table obligations and files; rules).\n\n'
for pid, p in props.PROPS.items():
    sp = V + '/spec/%s.json' % pid
    obs = json.load(open(sp))['obligations'] if os.path.exists(sp) else []
    files = sorted(set(o['file'] for o in obs))
    ne = sum(len(o['table']['effects']) for o in obs)
    fn = []
    for o in obs:
        n = o['func'].split('(')[0]
        n = n.replace('include_what_you_use::', '').replace('(anonymous namespace)::', '')
        if n not in fn:
            fn.append(n)
    out += '**%s %s.** %s\n\n' % (pid, p['title'], p['statement'])
    if obs:
        out += '*Decided by* %d obligations with %d effects in %s: %s%s.' % (
            len(obs), ne, ', '.join(files), ', '.join(fn[:14]), ' and %d more' % (len(fn) - 14) if len(fn) > 14 else '')
    for r in p['rules']:
        out += ' *Rule* `%s`: %s.' % (r.__name__, (r.__doc__ or '').strip().split('\n')[0])
    out += '\n\n'
out += '### Not applicable\n\n'
for pid, p in props.NA.items():
    out += '* **%s %s** — %s\n' % (pid, p['title'], p['reason'])
tail = open(V + '/dev/design_tail.md').read()
k = json.load(open(V + '/known_findings.json'))
tail = tail.replace('@@FIXES@@', '\n'.join('* %s `%s` (%s, %s): %s' % (e['property'], e['commit'], e['file'], e['construct'], e['what']) for e in k if e['status'] == 'fixed'))
s = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(V + '/dev/caught.json')) if os.path.exists(V + '/dev/caught.json') else {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    s.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], caught.get(d, '?')))
tail = tail.replace('@@SEEDS@@', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(out + tail)
