"""plant.py SPEC.py... : each spec defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source)."""
import sys, os, subprocess, json, runpy, shutil
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def run(spec):
    g = runpy.run_path(spec); ID=g['ID']; out=[]
    w='/tmp/sc/'+ID
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo '+w)
    for f,o,n in g['EDITS']:
        p=w+'/'+f; t=open(p, newline='').read()
        if t.count(o)!=1: return ID+': edit matches %d times in %s: %r'%(t.count(o),f,o[:80])
        open(p,'w',newline='').write(t.replace(o,n))
    sd='/verif/seeded/'+ID; shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
    open(sd+'/patch.diff','w').write(sh('git -C %s diff'%w).stdout)
    open(sd+'/demo.sh','w').write('''#!/bin/bash
# Exits 0 when the property holds, non-zero when it is broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/nxtdemo.XXXXXXXX) || exit 99
export NXT_USER_DIR=$T/user HOME=$T PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD
mkdir -p "$T/user" "$T/work"
/opt/venv/bin/python -W ignore "$D/demo.py" "$T/work"
RC=$?
rm -rf "$T"
exit $RC
''')
    os.chmod(sd+'/demo.sh',0o755)
    open(sd+'/demo.py','w').write(g['DEMO'])
    json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(sd+'/meta.json','w'),indent=1)
    # original lines?
    base='9a0b5d3~1'
    r=sh('cd /repo && bash %s/demo.sh'%sd)
    out.append('demo on clean rc=%d %s'%(r.returncode, r.stdout[-300:] if r.returncode else ''))
    props=[g['PROP']]+list(g.get('ALSO',[]))
    script='''mount --bind %s /repo && mount -t tmpfs none /opt/vp 2>/dev/null; true'''%w
    cmd='''set -e; mount --bind %(w)s /repo; cd /repo
bash /opt/vp/build.sh >/tmp/sc/%(ID)s.build 2>&1 || echo BUILDFAIL
bash /opt/vp/test.sh /tmp/sc/%(ID)s.json > /tmp/sc/%(ID)s.test 2>&1; tail -1 /tmp/sc/%(ID)s.test
set +e
bash %(sd)s/demo.sh > /tmp/sc/%(ID)s.demo 2>&1; echo "demo on patched rc=$?"; tail -2 /tmp/sc/%(ID)s.demo
for c in %(props)s; do VERIF_SEED=1 timeout 900 /verif/check.sh $c > /tmp/sc/%(ID)s.$c 2>&1; echo "check $c rc=$?"; tail -3 /tmp/sc/%(ID)s.$c | cut -c1-300; done
'''%dict(w=w,ID=ID,sd=sd,props=' '.join(props))
    r=sh("unshare -Urm bash -c '%s'"%cmd.replace("'","'\\''"))
    out.append(r.stdout)
    shutil.rmtree(w, ignore_errors=True)
    return ID+' '+g['PROP']+'\n  '+'\n  '.join('\n'.join(out).splitlines())
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run, sys.argv[1:]): print(r, flush=True)
