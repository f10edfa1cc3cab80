"""Development aid: turns edits (name, [(file, old, new), ...]) into diffs.  usage: mk.py OUTDIR edits.py"""
import os, subprocess, sys, shutil
out, src = sys.argv[1:3]
ns = {}
exec(open(src).read(), ns)
W = '/tmp/rf/wt'
for name, edits in ns['E']:
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x commit -qm x' % (W, W), shell=True, check=True)
    for f, old, new in edits:
        s = open(os.path.join(W, f)).read()
        if s.count(old) != 1:
            print('!!', name, f, s.count(old), repr(old[:80]))
            break
        open(os.path.join(W, f), 'w').write(s.replace(old, new))
    else:
        d = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
        t = ''
        if any(f == 'fix_includes.py' for f, _, _ in edits):
            r = subprocess.run([sys.executable, 'fix_includes_test.py'], cwd=W, capture_output=True, text=True)
            t += '' if r.returncode == 0 else ' TESTS FAIL ' + r.stderr[-300:]
        if any(f == 'iwyu_tool.py' for f, _, _ in edits):
            r = subprocess.run([sys.executable, 'iwyu_tool_test.py'], cwd=W, capture_output=True, text=True)
            t += '' if r.returncode == 0 else ' TESTS FAIL ' + r.stderr[-300:]
        p = os.path.join(out, name + '.diff') if not ns.get('SEED') else None
        open(p, 'w').write(d)
        print(name, d.count('\n'), t)
shutil.rmtree(W, ignore_errors=True)
