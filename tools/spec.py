"""Single source of properties.jsonl, MANIFEST.json and contracts/levels.json (run: python3 tools/spec.py)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def prop(id, title, statement, over, why, files, mech, level='proof', note='', assumptions=(), ready=True, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, level=level, note=note,
                      assumptions=list(assumptions), ready=ready, na=na, observe=observe))
exec(open(os.path.join(V, 'tools', 'props.py')).read())

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'][0], text=p['over'][1]),
                     why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
            if p['observe']: d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    checks, na, levels = [], [], {}
    for p in PROPS:
        if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
        if not p['ready']: na.append(dict(property=p['id'], reason='check not built yet (work in progress, see DESIGN.md)')); continue
        tech = {'proof': 'contracts on the real templates, VCs generated by instantiating the unmodified /repo headers over a symbolic scalar, discharged by rational-function normal forms, z3 and cvc5; counterexamples replayed on the double build',
                'other': 'contracts on the real templates (same VC generator for what is within reach); container-level functions by exhaustive enumeration of a stated bound, labelled bounded'}.get(p['level'], 'pre/postconditions on the real container-level functions, decided by exhaustive enumeration of the stated finite domain on the unmodified /repo headers (bounded stand-in, not a proof); obligations within the verifier\'s reach are discharged over symbolic ids and coordinates')
        checks.append(dict(property=p['id'], quick_cmd='python3 engine/check.py %s --tier quick' % p['id'], thorough_cmd='python3 engine/check.py %s --tier thorough' % p['id'],
                           technique=tech, level=p['level'], level_note=p['note']))
        levels[p['id']] = dict(level=p['level'], note=p['note'], assumptions=p['assumptions'])
    json.dump(dict(version=1, setup_cmd='python3 engine/check.py --setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    json.dump(levels, open(os.path.join(V, 'contracts', 'levels.json'), 'w'), indent=1)
main()
