#!/usr/bin/env python3
"""seed maker: python3 mk.py SPEC.py ; SPEC sets SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=str)]"""
import sys, os, subprocess, json, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
V = '/verif/seeded'
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = f"{V}/{s['id']}"; os.makedirs(d, exist_ok=True)
    w = '/tmp/seedmk'; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', w, 'HEAD'], check=True, capture_output=True)
    for f, o, n in s['edits']:
        t = open(f'{w}/{f}').read(); assert t.count(o) == 1, (s['id'], f, t.count(o), o)
        open(f'{w}/{f}', 'w').write(t.replace(o, n))
    open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w], check=True)
    open(f'{d}/demo.cc', 'w').write(s['demo'])
    shutil.copy('/verif/seedtool/demo.sh', f'{d}/demo.sh')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    print('made', s['id'])
