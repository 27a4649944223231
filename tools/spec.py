"""Source of properties.jsonl and MANIFEST.json (python3 tools/spec.py rewrites both)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYX = 'python/coffe/coffe.pyx'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                         anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                      state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)),
                  technique=technique, note=note, na=na))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

ids = [p['d']['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['d']['title']) <= 80, p['d']['id']
        f.write(json.dumps(p['d']) + '\n')
checks, na = [], []
for p in P:
    i = p['d']['id']
    c = glob.glob(os.path.join(ROOT, 'checks', i.lower() + '_*.py'))
    if p['na'] is None:
        assert c, 'no check for ' + i
        rel = os.path.relpath(c[0], ROOT)
        checks.append(dict(property=i, quick_cmd='python3 ' + rel, thorough_cmd='python3 %s --thorough' % rel, technique=p['technique'],
                           level='other', level_note=p['note'], evidence_file='evidence/%s.json' % i))
    else:
        assert not c, 'a check exists for ' + i
        na.append(dict(property=i, reason=p['na']))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check is a static analysis of /repo\'s current source (LLVM IR of the C library, syntax tree of the Cython module); nothing of coffe is executed. See DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
