#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property on /repo's current sources."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import framework as F
from ir import AnalysisBroken


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = F.load_props()[pid]
    res = F.Result()
    broken = []
    sp = os.path.join(VERIF, 'spec', pid + '.json')
    tables = json.load(open(sp))['obligations'] if os.path.exists(sp) else []
    if not tables and prop.get('tables'):
        broken.append('spec/%s.json is missing' % pid)
    for d in tables:
        try:
            F.decide_table(d, res)
        except AnalysisBroken as e:
            broken.append('%s: %s' % (d['func'], e))
        except (MemoryError, RecursionError) as e:
            broken.append('%s: %s' % (d['func'], type(e).__name__))
    if tables and res.counts.get('functions_gone', 0) * 2 > len(tables):
        broken.append('most of the functions specified for this property are gone')
    for rule in prop.get('rules', ()):
        try:
            n = len(res.violations)
            rule(res)
            res.count('rules_evaluated')
        except AnalysisBroken as e:
            broken.append('%s: %s' % (rule.__name__, e))
    kf = [k for k in known_findings() if k.get('status') == 'known' and k['property'] == pid]
    out, hit = [], set()
    for v in res.violations:
        for k in kf:
            if k['rule'] == v.rule and k['file'] == v.file and k['construct'] == v.construct and k['match'] in v.msg:
                hit.add(k['id'])
                break
        else:
            out.append(v)
    for k in kf:
        if k['id'] in hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    wall = time.time() - t0
    cov = dict(res.counts)
    cov['explanation'] = prop['explain'] + ' Deciding step: guarded effect summaries of the current source compared, as boolean ' \
        'functions over canonical predicates, with the committed decision tables; plus the structural rules listed in DESIGN.md.'
    cov['tables'] = len(tables)
    cov['samples'] = res.samples[:6] or [{'rule': r.__name__} for r in prop.get('rules', ())][:4]
    cov['functions'] = sorted(set('%s:%s' % (d['file'], d['func']) for d in tables))[:200]
    if res.notes:
        cov['undecided'] = res.notes[:40]
    cov['rules'] = [r.__name__ for r in prop.get('rules', ())]
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(wall, 3), violations=len(out),
              assumptions=['clang 20 parses the sources as the project compiler does; C-level aliasing outside the modelled '
                           'fields, exceptions thrown by the C++ standard library and template instantiations outside the tree are not modelled',
                           'a loop is characterised by its generic iteration; calls of library functions are uninterpreted'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if out:
        os.makedirs(os.path.join(VERIF, 'build', 'replay'), exist_ok=True)
        rp = os.path.join('build', 'replay', pid + '.json')
        json.dump([v.as_dict() for v in out], open(os.path.join(VERIF, rp), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        for v in out[:20]:
            print('  %s:%s %s [%s] %s' % (v.file, v.line, v.construct, v.rule, v.msg[:1200]))
        if len(out) > 20:
            print('  ... %d more' % (len(out) - 20))
        for b in broken:
            print('  note: could not analyse ' + b)
        return 1
    if broken:
        for b in broken:
            print('ANALYSIS-ERROR property=%s %s' % (pid, b))
        return 2
    print('OK property=%s tables=%d %s (%.1fs)' % (pid, len(tables), ' '.join('%s=%s' % kv for kv in sorted(res.counts.items())), wall))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except AnalysisBroken as e:
        print('ANALYSIS-ERROR %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
