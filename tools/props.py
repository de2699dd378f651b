"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note, technique,
         state=(), hook=None):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=hook)),
        dict(level_note=level_note, technique=technique)))


exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

NOT_APPLICABLE = []

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks = []
    for p, m in P:
        i = p['id']
        assert os.path.exists(os.path.join(ROOT, 'harness', 'checks', i.lower() + '.py')), i
        checks.append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i,
                           thorough_cmd='bin/check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=m['technique'],
                           level='exploration', level_note=m['level_note']))
    man = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=NOT_APPLICABLE,
               notes='All monitors live in /verif and attach to the public API of /repo at run '
                     'time; /repo carries no hooks, only fix: commits.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties')
