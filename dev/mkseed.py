#!/usr/bin/env python3
"""Create and confirm planted bugs.  usage: mkseed.py SEEDS.py [name...]

SEEDS.py defines S = [dict(id, prop, edits=[(file, old, new)], demo=<demo.sh text>,
files={name: text}, needs, breaks)].  Each one is confirmed in a scratch copy:
builds, stable tests pass, demo passes without and fails with the change.
"""
import json, os, shutil, subprocess, sys
SRC = '/repo'
W = os.environ.get('SEEDW', '/tmp/seedrepo')

def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.exists(W):
        subprocess.check_call(['cp', '-a', SRC, W])
    if W != SRC:
        sh('git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD')
    for s in ns['S']:
        if want and s['id'] not in want:
            continue
        d = os.path.join('/verif/seeded', s['id'])
        out = '/tmp/seed_' + s['id']
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        sh('git checkout -q -- .')
        bad = None
        for f, old, new in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = '%s: old text occurs %d times' % (f, t.count(old))
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print('FAIL', s['id'], bad)
            continue
        open(out + '/patch.diff', 'w').write(sh('git diff').stdout)
        open(out + '/demo.sh', 'w').write(s['demo'])
        for n, t in (s.get('files') or {}).items():
            open(os.path.join(out, n), 'w').write(t)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        def py():
            r = []
            for f in {f for f, _, _ in s['edits']}:
                if f.endswith('.py'):
                    t = f[:-3] + '_test.py'
                    if os.path.exists(os.path.join(W, t)):
                        p = sh('python3 ' + t)
                        r.append(p.returncode)
            return not any(r)
        iscc = any(not f.endswith('.py') for f, _, _ in s['edits'])
        okpy = py()
        # with the patch
        b = sh('sed "s#/repo#%s#g" /opt/vp/build.sh > /tmp/bs.sh; bash /tmp/bs.sh' % W) if iscc else sh('python3 -m py_compile %s' % s['edits'][0][0])
        p1 = sh('timeout 280 bash %s/demo.sh' % out)
        sh('git checkout -q -- .')
        if iscc:
            sh('bash /tmp/bs.sh')
        p0 = sh('timeout 280 bash %s/demo.sh' % out)
        ok = okpy and b.returncode == 0 and p1.returncode != 0 and p0.returncode == 0
        print('OK  ' if ok else 'FAIL', s['id'], 'tests', okpy, 'build', b.returncode, 'demo clean', p0.returncode, 'patched', p1.returncode, '|', p1.stdout.strip().replace('\n', ' / ')[-160:])
        if not ok:
            print('   clean out:', p0.stdout[-600:])
            print('   build:', b.stdout[-300:] if b.returncode else '')
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(out, d)
        shutil.rmtree(out)

main()
