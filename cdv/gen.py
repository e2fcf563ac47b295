"""gen.py: writes /verif/properties.jsonl and /verif/MANIFEST.json from contracts/props.py"""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'contracts'))
import props
TRUST = 'Proof over exact real arithmetic: rounding, overflow, NaN and infinities are not modelled; int arithmetic is unbounded; allocation succeeds; the verifier itself, clang and z3 are trusted.'
def main():
    lines = []
    na = {x['id'] for x in props.NOT_APPLICABLE}
    allp = [dict(id=i, title=p['title'], statement=p['statement'], quantifier={'over': p['over'], 'text': p['qtext']}, why_tests_cant=p['why'],
                 anchors={'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}) for i, p in props.PROPS.items()]
    allp += [{k: v for k, v in x.items() if k != 'reason'} for x in props.NOT_APPLICABLE]
    allp.sort(key=lambda p: p['id'])
    for p in allp:
        assert len(p['title']) <= 80, p['title']
        lines.append(json.dumps(p))
    open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    checks = []
    for i, p in sorted(props.PROPS.items()):
        checks.append({'property': i, 'quick_cmd': 'python3-vt cdv/check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt cdv/check.py %s --tier thorough' % i,
                       'technique': 'deductive verification of the C functions against contracts (own VC generator over the clang AST, z3), failing inputs replayed on the compiled code' if p['level'] == 'proof' else 'bounded contract checking of the compiled functions (contracts out of reach of the prover), labelled bounded',
                       'level': p['level'], 'level_note': TRUST + (' ' + p['note'] if p['note'] else '')})
    m = {'version': 1, 'setup_cmd': 'bash cdv/setup.sh', 'checks': checks, 'not_applicable': [{'property': x['id'], 'reason': x['reason']} for x in props.NOT_APPLICABLE],
         'notes': 'Every check re-reads /repo/src with clang on each run; contracts are in contracts/, the verifier in cdv/. No hooks in /repo.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
