"""design.py: writes /verif/DESIGN.md from tools/DESIGN.in.md, contracts/props.py, the contracts and seeded/*/meta.json"""
import sys, os, json, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'contracts'), os.path.join(ROOT, 'cdv')]
import importlib, contracts, check; importlib.import_module(check.MODULE); import props
cons = contracts.REG
t, sres = open(os.path.join(ROOT, 'tools/DESIGN.in.md')).read(), {}
try: sres = json.load(open(os.path.join(ROOT, 'tools/seed_results.json')))
except OSError: pass
rows = []
for i, p in sorted(props.PROPS.items()):
    b = [f for f in p['functions'] if cons[f].bounded]; tr = [f for f in p['functions'] if cons[f].trusted]
    rows.append('| %s %s | %s | %s |' % (i, p['title'], ', '.join(f for f in p['functions'] if f not in b and f not in tr), ', '.join(b) or '-'))
t = t.replace('@TABLE@', '\n'.join(rows))
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded/*'))):
    m = json.load(open(d + '/meta.json')); k = os.path.basename(d)
    rows.append('| %s | %s | %s | %s |' % (k, m['what_it_breaks'], m['needs'], sres.get(k, 'not run')))
t = t.replace('@SEEDS@', '\n'.join(rows))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
