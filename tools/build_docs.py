"""Writes properties.jsonl, MANIFEST.json and the property sections of DESIGN.md (between the markers)."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import docs


def module(pid):
    p = os.path.join(ROOT, 'vf', 'props', pid.lower() + '.py')
    if not os.path.exists(p):
        return None
    d = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('LEVEL', 'CASES', 'RULE', 'REQUIRED', 'ASSUMPTIONS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


props, checks, na, design = [], [], [], []
for pid, e in sorted(docs.P.items()):
    m = module(pid)
    assert len(e['title']) <= 80, pid
    assert e['statement'].count('. ') + 1 <= 3, pid
    files = sorted({w.split(':')[0] for _, w in e['mech']})
    props.append({'id': pid, 'title': e['title'], 'statement': e['statement'], 'quantifier': {'over': e['over'], 'text': e['text']}, 'why_tests_cant': e['why'],
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in e['mech']], 'hook_needed': None}})
    if m is None:
        na.append({'property': pid, 'reason': 'check under construction; runtime monitoring applies'})
        continue
    tech = 'runtime monitoring: ' + ('virtual clock fault enumeration with result monitors' if m['LEVEL'] == 'fault_enumeration' else 'seeded random and hostile workloads on the real code, judged by reference monitors')
    checks.append({'property': pid, 'quick_cmd': './check ' + pid, 'thorough_cmd': './check %s --tier thorough' % pid, 'technique': tech, 'level': m['LEVEL'],
                   'level_note': e['note'] + ' Holds for the executions observed (fixed seeds); trusts numpy, shapely/GEOS overlay and the reference geometry in vf/oracle.py.'})
    req = ', '.join('%s >= %s' % (k, v if isinstance(v, int) else v['quick']) for k, v in m.get('REQUIRED', {}).items())
    design.append('### %s %s\n\n%s\n\n- Decided by: %s\n- Workload: %s\n- Size: %d cases per quick run, %d per thorough run. A run is inconclusive (exit 3), not passed, when monitors were reached too seldom (quick: %s).\n- Limits: %s%s\n'
                  % (pid, e['title'], e['statement'], e['method'], m['RULE'], m['CASES']['quick'], m['CASES']['thorough'], req or 'none', e['note'],
                     (' ' + '; '.join(m['ASSUMPTIONS']) + '.') if m.get('ASSUMPTIONS') else ''))
open(os.path.join(ROOT, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
       'notes': 'Pure Python library: the checks import it from /repo, no build and no hooks needed. Generated by tools/build_docs.py.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- properties -->', '<!-- /properties -->'
s = s[:s.index(a) + len(a)] + '\n\n' + '\n'.join(design) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not claimed')
