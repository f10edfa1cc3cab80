#!/usr/bin/env python3
"""Development aid: applies each diff given (or all of refactorings/ or seeded/) to a scratch copy of /repo
and reports what every check says about it.  usage: sweep.py quiet|caught [name...]"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = '''
import sys, json, os
sys.path.insert(0, %r); sys.path.insert(0, %r)
import framework as F
from ir import AnalysisBroken
out = []
only = sys.argv[1:]
for pid, prop in F.load_props().items():
    res = F.Result()
    sp = os.path.join(%r, 'spec', pid + '.json')
    tables = json.load(open(sp))['obligations'] if os.path.exists(sp) else []
    for d in tables:
        try:
            F.decide_table(d, res)
        except (AnalysisBroken, MemoryError, RecursionError) as e:
            out.append((pid, 'BROKEN', d['func'], str(e)[:200]))
    for r in prop.get('rules', ()):
        try:
            r(res)
        except AnalysisBroken as e:
            out.append((pid, 'BROKEN', r.__name__, str(e)[:200]))
    for v in res.violations:
        out.append((pid, v.rule, '%%s:%%s %%s' %% (v.file, v.line, v.construct), v.msg[:int(os.environ.get('W', '300'))]))
for o in out: print(json.dumps(o))
''' % (VERIF, os.path.join(VERIF, 'engine'), VERIF)


def one(args):
    name, diff, mode = args
    d = '/tmp/sweep/%s' % name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('git -C /repo archive HEAD -- "*.cc" "*.h" "*.py" "*.imp" "*.1" docs | tar x -C %s' % d, shell=True, check=True)
    r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, diff], cwd='/', capture_output=True, text=True)
    if r.returncode:
        r = subprocess.run(['patch', '-s', '-p1', '-d', d, '-i', diff], capture_output=True, text=True)
        if r.returncode:
            return name, [('?', 'PATCH', '', r.stderr + r.stdout)]
    r = subprocess.run([sys.executable, '-c', RUN], env=dict(os.environ, IWYU_REPO=d), capture_output=True, text=True)
    out = [json.loads(x) for x in r.stdout.splitlines() if x.startswith('[')]
    if r.returncode:
        out.append(('?', 'CRASH', '', r.stderr[-600:]))
    shutil.rmtree(d, ignore_errors=True)
    return name, out


def main():
    mode = sys.argv[1]
    names = sys.argv[2:]
    jobs = []
    if mode in ('quiet', 'exp'):
        base = os.path.join(VERIF, 'refactorings') if mode == 'quiet' else names.pop(0)
        for f in sorted(os.listdir(base)):
            if f.endswith('.diff') and (not names or any(n in f for n in names)):
                jobs.append((f[:-5], os.path.join(base, f), mode))
    else:
        base = os.path.join(VERIF, 'seeded')
        for f in sorted(os.listdir(base)):
            if not names or any(n in f for n in names):
                jobs.append((f, os.path.join(base, f, 'patch.diff'), mode))
    bad = 0
    caught = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for name, out in ex.map(one, jobs):
            pids = sorted(set(o[0] for o in out))
            if mode in ('quiet', 'exp'):
                print(('ALARM ' if out else 'quiet ') + name, ' '.join(pids))
                bad += bool(out)
                seen = set()
                for o in out:
                    if (o[2], o[3]) not in seen:
                        seen.add((o[2], o[3]))
                        print('   ', o[0], o[1], o[2], o[3])
            else:
                want = json.load(open(os.path.join(base, name, 'meta.json')))['property']
                ok = any(o[0] == want and o[1] != 'BROKEN' for o in out)
                print(('CAUGHT ' if ok else 'MISSED ') + name, want, 'by', ' '.join(pids))
                bad += not ok
                caught[name] = ', '.join(sorted(set(o[0] for o in out if o[1] != 'BROKEN'))) or '(missed)'
                if os.environ.get('V'):
                    for o in out:
                        print('   ', *o)
    if mode == 'caught' and not names:
        json.dump(caught, open(os.path.join(VERIF, 'dev', 'caught.json'), 'w'), indent=1, sort_keys=True)
    print(bad, 'of', len(jobs), 'unexpected')


main()
