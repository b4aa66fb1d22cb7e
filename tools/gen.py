"""Write properties.jsonl and MANIFEST.json (and check them against the schemas) from lib/catalog.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import catalog

props = []
for p in sorted(catalog.P + catalog.NA, key=lambda p: p['id']):
    a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
    if p.get('observe'):
        a['observe_at'] = p['observe']
    props.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                  'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': a})
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
man = {
    'version': 1,
    'setup_cmd': 'python3 lib/setup.py',
    'checks': [{'property': p['id'], 'quick_cmd': 'python3 lib/check.py %s quick' % p['id'],
                'thorough_cmd': 'python3 lib/check.py %s thorough' % p['id'],
                'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']}
               for p in sorted(catalog.P, key=lambda p: p['id'])],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in sorted(catalog.NA, key=lambda p: p['id'])],
    'notes': 'All checks analyse the source of /repo (C++ through clang\'s AST and CFG with the flags of the real build, Java through its '
             'class files) and run nothing of it. Generated by tools/gen.py from lib/catalog.py.',
}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
props_md, seeds_md = [], []
for p in sorted(catalog.P, key=lambda p: p['id']):
    props_md.append('### %s %s\n\n%s\n\n*Method*: %s. %s\n\n%s\n\n*Limits*: %s\n' % (
        p['id'], p['title'], p['statement'], p['technique'], p['explanation'], catalog.HOW.get(p['id'], '').strip(), p['note']))
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    seeds_md.append('* `%s`, caught by %s: %s (needs: %s)' % (d, m['property'], m['what_it_breaks'], m['needs']))
na_md = ['* **%s %s** - %s' % (p['id'], p['title'], p['reason']) for p in sorted(catalog.NA, key=lambda p: p['id'])]
t = open(os.path.join(V, 'tools', 'design.md.in')).read()
t = t.replace('@@PROPS@@', '\n'.join(props_md).strip()).replace('@@SEEDS@@', '\n'.join(seeds_md)).replace('@@NA@@', '\n'.join(na_md))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, s)
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('%d properties, %d claimed: valid' % (len(props), len(catalog.P)))
except ImportError:
    print('jsonschema not available')
