"""mkseed.py DEF.py : DEF defines id, property, edits=[(file, old, new)], demo (C++ text), needs, breaks. Builds /verif/seeded/<id>, checks demo both ways and (unless --fast) the test suite."""
import sys, os, subprocess, json, shutil, tempfile
V='/verif'
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ns={}; exec(open(sys.argv[1]).read(), ns)
fast='--fast' in sys.argv
for S in ns['SEEDS']:
    wt=tempfile.mkdtemp(prefix='seedwt_'); shutil.rmtree(wt)
    r=run('git clone -q --shared /repo %s'%wt); assert r.returncode==0, r.stdout
    try:
        d=os.path.join(V,'seeded',S['id']); os.makedirs(d,exist_ok=True)
        open(d+'/demo.cpp','w').write(S['demo'])
        open(d+'/demo.sh','w').write('''#!/bin/bash
# builds the demonstration against the library in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
g++ -std=gnu++98 -O1 -w -I. "$here/demo.cpp" -o "$out/demo" || exit 3
cd "$out" && timeout 120 ./demo
''')
        os.chmod(d+'/demo.sh',0o755)
        r0=run('bash %s/demo.sh'%d, cwd=wt)
        for f,o,n in S['edits']:
            t=open(wt+'/'+f).read(); assert t.count(o)>=1,(S['id'],f,'old text not found'); assert t.count(o)==1 or S.get('multi'),(S['id'],f,'ambiguous',t.count(o)); open(wt+'/'+f,'w').write(t.replace(o,n,1))
        run('git -C %s diff > %s/patch.diff'%(wt,d))
        r1=run('bash %s/demo.sh'%d, cwd=wt)
        json.dump(dict(property=S['property'],needs=S['needs'],what_it_breaks=S['breaks']),open(d+'/meta.json','w'),indent=1)
        ok=r0.returncode==0 and r1.returncode not in (0,3)
        print(S['id'],S['property'],'clean',r0.returncode,'patched',r1.returncode,'OK' if ok else 'BAD', '' if ok else (r0.stdout[-1500:]+'---'+r1.stdout[-1500:]))
        if not ok and '--keep' not in sys.argv: shutil.rmtree(d)
    finally:
        shutil.rmtree(wt,ignore_errors=True)
