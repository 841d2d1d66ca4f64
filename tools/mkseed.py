"""tools/mkseed.py : writes /verif/seeded/<id>/{patch.diff,meta.json,demo.rs} from the definitions in tools/seeds/*.py.

Each definition has ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (the text of demo.rs).
"""
import json, os, subprocess, sys, importlib.util, glob
SR = '/tmp/sr'
def sh(*a): return subprocess.run(a, cwd=SR, check=True, capture_output=True, text=True).stdout
if not os.path.isdir(SR): subprocess.run(['git','clone','-q','/repo',SR],check=True)
sh('git','fetch','-q','origin'); sh('git','reset','-q','--hard','origin/HEAD')
want = sys.argv[1:]
for f in sorted(glob.glob('/verif/tools/seeds/*.py')):
    name = os.path.basename(f)[:-3]
    if want and name not in want: continue
    spec = importlib.util.spec_from_file_location(name, f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    sh('git','checkout','-q','--','.')
    for path, old, new in m.EDITS:
        s = open(f'{SR}/{path}').read()
        assert s.count(old) == 1, (name, path, s.count(old), old)
        open(f'{SR}/{path}','w').write(s.replace(old, new))
    cur=None
    for l in sh('git','diff').splitlines():
        if l.startswith('--- a/'): cur=sh('git','show','b788acf:'+l[6:]).splitlines()
        elif l.startswith('-') and l[1:] not in cur: print('  NOT ORIGINAL:', name, l)
    d = f'/verif/seeded/{name}'; os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff','w').write(sh('git','diff'))
    json.dump({'property': m.PROP, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(f'{d}/meta.json','w'), indent=1)
    open(f'{d}/demo.rs','w').write(m.DEMO)
    sh('git','checkout','-q','--','.')
    print(name, m.PROP)
