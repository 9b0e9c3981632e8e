#!/usr/bin/env python3
"""plant.py FILE...: make seeded bugs from specs (used while developing; no check reads it).

A spec is a Python file defining BUGS = [dict(id, property, kind, edits=[(path, old, new), ...], demo, needs, breaks)].
Each edit must match exactly once in /repo's HEAD. Writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
BASE = '09fe97a'
def sh(*a, **k): return subprocess.run(a, check=True, text=True, capture_output=True, **k).stdout
def main():
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        for b in g['BUGS']:
            d = f"{V}/seeded/{b['id']}"
            os.makedirs(d, exist_ok=True)
            w = tempfile.mkdtemp(prefix='plant', dir='/tmp')
            try:
                sh('git', '-C', '/repo', 'worktree', 'prune')
                sh('git', 'clone', '-q', '--shared', '/repo', w + '/r')
                for p, old, new in b['edits']:
                    f = f'{w}/r/{p}'
                    t = open(f).read()
                    assert t.count(old) == 1, (b['id'], p, t.count(old), old)
                    open(f, 'w').write(t.replace(old, new))
                    # what is removed has to be the original repository's
                    base = sh('git', '-C', '/repo', 'show', f'{BASE}:{p}').split('\n')
                    d1 = sh('git', '-C', w + '/r', 'diff', '-U0', '--', p)
                    gone = [l[1:] for l in d1.split('\n') if l.startswith('-') and not l.startswith('---')]
                    assert all(l in base for l in gone), (b['id'], 'not in the original', [l for l in gone if l not in base])
                    assert gone, (b['id'], 'removes no line')
                diff = sh('git', '-C', w + '/r', 'diff')
                open(d + '/patch.diff', 'w').write(diff)
            finally:
                shutil.rmtree(w)
            kind, _, kit = b['kind'].partition(':')
            shutil.copy(f"{V}/tools/demos/{kind}.sh", d + '/demo.sh')
            if kit:
                shutil.copy(f"{V}/tools/demos/kit-{kit}.tgz", d + '/kit.tgz')
            for extra in b.get('files', []):
                shutil.copy(f"{V}/tools/demos/{extra}", d)
            open(d + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            open(d + '/meta.json', 'a').write('\n')
            print('planted', b['id'])
main()
