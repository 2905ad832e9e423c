"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
SS, SC, SM = ['akasa-core/src/protocols/scram/%s.rs' % x for x in ('server', 'client', 'mod')]
PX = 'akasa-core/src/server/proxy.rs'
AI = 'abstract interpretation of MIR (path-sensitive dataflow over value terms)'
PS = 'property simulation (ESP-style typestate dataflow) over MIR'
NOTE = ('Decides every path of the analysed functions for all inputs, to a fixpoint for loops; trusts rustc MIR construction, the models of library functions in sa/models.py and the '
        'typed stand-in for mqtt-proto.')


def p(id, title, statement, over, text, why, files, mech, technique=AI, note=NOTE, na=None, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na,
                      state=state or [], observe=observe or []))


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in PROPS:
        a = {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']]}
        if d['state']:
            a['state'] = d['state']
        if d['observe']:
            a['observe_at'] = d['observe']
        a['hook_needed'] = None
        assert len(d['title']) <= 80, d['title']
        assert d['statement'].count('. ') <= 2, d['id']
        f.write(json.dumps({'id': d['id'], 'title': d['title'], 'statement': d['statement'], 'quantifier': {'over': d['over'], 'text': d['text']},
                            'why_tests_cant': d['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sa/dump.py',
     'checks': [{'property': d['id'], 'quick_cmd': 'python3 sa/check.py ' + d['id'], 'thorough_cmd': 'python3 sa/check.py %s --thorough' % d['id'],
                 'technique': 'static analysis: ' + d['technique'], 'level': 'other', 'level_note': d['note']} for d in PROPS if not d['na']],
     'not_applicable': [{'property': d['id'], 'reason': d['na']} for d in PROPS if d['na']]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties,', len(m['checks']), 'checks')
