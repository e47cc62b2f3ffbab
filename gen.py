#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT)
D = 'src/c/data.c'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': observe, 'hook_needed': False}})
def load():
    exec(open(os.path.join(ROOT, 'props.py')).read(), globals())
    return P
def main():
    load()
    import specs
    have = {h['prop'] for h in specs.HARNESSES}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        if p['id'] not in have: continue
        bounds = sorted({h['bounds'] for h in specs.HARNESSES if h['prop'] == p['id']})
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': 'symbolic execution of the real code (LLVM IR of the current sources), every branch and assertion decided by Z3; counterexamples replayed natively',
            'level': 'model_checking', 'level_note': 'Holds for all values within the bounds: ' + '; '.join(bounds) + '. Trusts the engine (validated by native replay of sampled paths), the C library and OS models in rt/, and that allocation succeeds.'})
    na = [{'property': p['id'], 'reason': NA[p['id']]} for p in P if p['id'] not in have]
    m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks run check.py, which compiles the harness of a property together with the current sources of /repo to LLVM IR, executes it symbolically with engine/symx and replays counterexamples against a native sanitizer build. Known findings: known_findings.json.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
NA = {}
if __name__ == '__main__': main()

def design ():
    import json, glob, os, specs
    p = ROOT + '/DESIGN.md' if 'ROOT' in globals() else os.path.join(os.path.dirname(os.path.abspath(__file__)), 'DESIGN.md')
    t = open(p).read().split('## Appendix A')[0].rstrip()
    t += '\n\n## Appendix A: runs and bounds (generated by gen.py from specs.py)\n\nEach set of parameters is one exhaustive symbolic run; thorough sets extend the quick ones.\n\n| property | harness | quick runs | thorough runs | bounds |\n|--|--|--|--|--|\n'
    for h in sorted(specs.HARNESSES, key=lambda h: h['prop']):
        t += '| %s | %s (%s) | %d | %d | %s |\n' % (h['prop'], h['name'], h['src'], len(h['tiers']['quick']), len(h['tiers']['thorough']), h['bounds'].replace('|', '\\|'))
    t += '\n## Appendix B: planted changes (generated from seeded/)\n\nResult of the quick check of the property on the tree with the change applied.\n\n| change | property | needs | check |\n|--|--|--|--|\n'
    res = {}
    r = os.path.join(os.path.dirname(p), 'seeded', 'results.json')
    if os.path.exists(r): res = json.load(open(r))
    for d in sorted(glob.glob(os.path.join(os.path.dirname(p), 'seeded', '*', 'meta.json'))):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        t += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), res.get(i, ''))
    open(p, 'w').write(t)
design()
