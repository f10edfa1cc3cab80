#!/usr/bin/env python3
"""Regenerates spec/<ID>.json (decision tables), MANIFEST.json and properties.jsonl from props.py.

Run by hand when a specification is reviewed; never by a check."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import framework as F
import spec as S


def main():
    only = sys.argv[1:]
    props = F.load_props()
    import props as P
    for pid, p in props.items():
        if only and pid not in only:
            continue
        obs = []
        for d, f, prog in F.expand_tables(p.get('tables', ())):
            try:
                s = F.summary(prog, f, d)
                d['table'] = S.to_spec(s)
            except (MemoryError, F.AnalysisBroken) as e:
                print('SKIP %s %s: %s' % (pid, f, e))
                continue
            ms = S.compare(F.summary(prog, f, d), d['table'])
            if ms:
                print('SELF-MISMATCH', pid, f, ms[0].msg[:200])
                continue
            if not d['table']['effects'] and d.get('scope'):
                print('EMPTY', pid, f)
                continue
            obs.append(d)
        fn = os.path.join(VERIF, 'spec', pid + '.json')
        if obs:
            lines = ',\n'.join(json.dumps(o, sort_keys=True) for o in obs)
            open(fn, 'w').write('{"property": "%s", "obligations": [\n%s\n]}\n' % (pid, lines))
        elif os.path.exists(fn):
            os.remove(fn)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for pid, p in list(props.items()) + list(P.NA.items()):
            f.write(json.dumps(dict(id=pid, title=p['title'], statement=p['statement'],
                                    quantifier=p['quantifier'], why_tests_cant=p['why'], anchors=p['anchors'])) + '\n')
    man = dict(version=1, setup_cmd='bash engine/setup.sh',
               checks=[dict(property=pid, quick_cmd='python3 check.py ' + pid, thorough_cmd='python3 check.py ' + pid,
                            technique=p.get('technique', 'static analysis: guarded effect summaries vs decision tables, structural rules'),
                            level='other', level_note=p.get('level_note', P.LEVEL_NOTE)) for pid, p in props.items()],
               not_applicable=[dict(property=pid, reason=p['reason']) for pid, p in P.NA.items()],
               notes=P.NOTES)
    json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
