#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds /verif/seeded/<id> from a spec with id, property, needs, what, edits, demo.
edits is a list of (file, old, new), applied to a scratch copy of /repo's HEAD."""
import sys, os, subprocess, tempfile, shutil, json
def run(*a, **k): return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    w = tempfile.mkdtemp(prefix='mkseed')
    try:
        run('git', 'clone', '-q', '/repo', w+'/r')
        files = []
        for f, old, new in g['edits']:
            s = open(w+'/r/'+f).read()
            if s.count(old) != 1:
                sys.exit('%s: %d matches in %s of\n%s' % (g['id'], s.count(old), f, old))
            open(w+'/r/'+f, 'w').write(s.replace(old, new)); files.append(f)
        subprocess.run(['gofmt','-l']+files, cwd=w+'/r')
        # report which removed lines are not of the original repository
        diff = run('git', '-C', w+'/r', 'diff')
        base = '^'
        removed = 0; orig = 0
        for f in set(files):
            out = run('git','-C',w+'/r','diff','-U0',f)
            blame = run('git','-C',w+'/r','blame','-s','HEAD','--',f).split('\n')
            for l in out.split('\n'):
                if l.startswith('@@'):
                    part = l.split()[1][1:]
                    start, n = (part.split(',')+['1'])[:2]
                    for i in range(int(start), int(start)+int(n)):
                        removed += 1
                        if blame[i-1].startswith('^'): orig += 1
        d = '/verif/seeded/'+g['id']
        os.makedirs(d, exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go.txt','w').write(g['demo'].lstrip())
        here = os.path.dirname(os.path.abspath(__file__))+'/seed/'
        if g.get('module') == 'ext':
            shutil.copy(here+'miniredis_test.go.txt', d)
        shutil.copy(here+('demo-ext.sh' if g.get('module') == 'ext' else 'demo.sh'), d+'/demo.sh'); os.chmod(d+'/demo.sh', 0o755)
        shutil.copy(here+'peer_test.go.txt', d+'/peer_test.go.txt')
        json.dump({'property':g['property'],'needs':g['needs'],'what_it_breaks':g['what']}, open(d+'/meta.json','w'), indent=1)
        print(g['id'], 'removes', removed, 'lines,', orig, 'of the original')
    finally:
        shutil.rmtree(w)
