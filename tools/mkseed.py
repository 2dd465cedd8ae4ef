#!/usr/bin/env python3
"""mkseed.py spec.py : spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO"""
import sys,os,subprocess,json,shutil,runpy
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for spec in sys.argv[1:]:
    s=runpy.run_path(spec)
    wt='/tmp/seedwt'
    shutil.rmtree(wt,ignore_errors=True)
    sh(f'cp -a /repo {wt}')
    assert sh(f'git -C {wt} status --porcelain').stdout.strip()==''
    for f,o,n in s['EDITS']:
        p=f'{wt}/{f}'; t=open(p).read()
        if t.count(o)!=1: print(s['ID'],'EDIT count',t.count(o),f,o[:60]); break
        open(p,'w').write(t.replace(o,n))
    else:
        d=f"/verif/seeded/{s['ID']}"; os.makedirs(d,exist_ok=True)
        diff=sh(f'git -C {wt} diff').stdout
        # check lines removed are original
        base=sh(f'git -C /repo show b28981c:{s["EDITS"][0][0]}').stdout
        rem=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        bad=[l for l in rem if l.strip() and l not in base]
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.py','w').write(s['DEMO'])
        open(d+'/demo.sh','w').write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH="$PWD/src"\nexec "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":s['PROP'],"needs":s['NEEDS'],"what_it_breaks":s['BREAKS']},open(d+'/meta.json','w'),indent=1)
        r1=sh(f'bash {d}/demo.sh',cwd='/repo'); r2=sh(f'bash {d}/demo.sh',cwd=wt)
        # tests in the scratch copy
        t=sh(f'. /opt/vp/env.sh; cd {wt}; PYTHONPATH={wt}/src $PY -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --hypothesis-profile=ci --doctest-modules --ignore=utests/test_io/test_hdf5_internal.py --ignore=utests/test_io/test_txt_internal.py --ignore=utests/test_io/test_txt_verify.py utests src 2>&1 | tail -3',executable='/bin/bash')
        print(s['ID'],'clean rc',r1.returncode,'patched rc',r2.returncode,'| tests:',t.stdout.strip().splitlines()[-1:], '| non-original:',bad[:2])
        if r1.returncode: print(r1.stdout[-300:],r1.stderr[-500:])
        if not r2.returncode: print('NOT DETECTED BY DEMO')
        # magnopy location
    shutil.rmtree(wt,ignore_errors=True)
