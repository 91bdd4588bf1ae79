#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specifications below (edits are made in a scratch copy, diffed, and discarded).
usage: bugs.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
B = []
def bug(id, prop, edits, demo, needs, breaks, extra='', script=None, files=()):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, extra=extra, script=script, files=files))
T = 'generator/EmbeddedProto/templates/'
for f in sorted(os.listdir(HERE)):
    if f.startswith('set') and f.endswith('.py'):
        exec(open(os.path.join(HERE, f)).read())
def main():
    want = sys.argv[1:]
    assert len({b['id'] for b in B}) == len(B)
    for b in B:
        if want and b['id'] not in want: continue
        tmp = tempfile.mkdtemp(prefix='bug.', dir='/tmp')
        try:
            subprocess.check_call('git -C /repo archive HEAD src generator | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x' % (tmp, tmp), shell=True)
            for f, old, new in b['edits']:
                p = os.path.join(tmp, f); s = open(p).read()
                assert s.count(old) >= 1, '%s: text not found in %s' % (b['id'], f)
                assert s.count(old) == 1, '%s: text not unique in %s (%d)' % (b['id'], f, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            d = os.path.join(SEEDED, b['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', tmp, 'diff', '--src-prefix=a/', '--dst-prefix=b/'], text=True))
            if b['script']:
                open(os.path.join(d, 'demo.sh'), 'w').write(b['script'])
                for f in b['files']: shutil.copy(os.path.join(HERE, f), d)
            else:
                for f in ('demo.h', 'd.proto'): shutil.copy(os.path.join(HERE, f), d)
                open(os.path.join(d, 'demo.sh'), 'w').write(open(os.path.join(HERE, 'demo.sh')).read().replace('EXTRA', b['extra']))
                open(os.path.join(d, 'demo.cpp'), 'w').write('#include "demo.h"\n' + b['demo'].strip() + '\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        finally:
            shutil.rmtree(tmp)
if __name__ == '__main__':
    main()
