#!/usr/bin/env python3
"""mkseed.py FILE.py : FILE.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (Go main package text), RACE=False
Creates seeded/ID after confirming in a scratch copy: builds, existing tests pass, demo fails with and passes without."""
import sys,os,subprocess,shutil,json,tempfile,runpy
g=runpy.run_path(sys.argv[1])
W=tempfile.mkdtemp(prefix='seedwt_'); R=os.path.join(W,'repo')
E=dict(os.environ,HOME='/root',GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
E['PATH']='/opt/veriftools/go1.27.3/bin:'+E['PATH']
def sh(c,**k): return subprocess.run(c,shell=True,env=E,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
try:
    sh('cp -a /repo %s'%R)
    out=os.path.join(W,'s'); os.makedirs(out)
    open(out+'/main.go','w').write(g['DEMO'])
    race='-race ' if g.get('RACE') else ''
    open(out+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository; exit 0: the property's observable holds, nonzero: it does not
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T="$(mktemp -d)"
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
cp "$D/main.go" "$T/main.go"
cp "$R/go.sum" "$T/go.sum"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/liyue201/gostl v0.0.0\\n\\nreplace github.com/liyue201/gostl => %s\\n' "$R" > "$T/go.mod"
cd "$T" && go build '''+race+'''-o demo . || exit 3
ulimit -t 120
GORACE="halt_on_error=1 exitcode=66" timeout 120 ./demo
''')
    os.chmod(out+'/demo.sh',0o755)
    r=sh('bash %s/demo.sh'%out,cwd=R)
    if r.returncode!=0: print('demo fails on the unchanged tree',r.stdout[-3000:]); sys.exit(1)
    for f,o,n in g['EDITS']:
        p=os.path.join(R,f); s=open(p).read()
        if s.count(o)!=1: print('edit matches',s.count(o),f,o); sys.exit(1)
        open(p,'w').write(s.replace(o,n))
    d=sh('git diff',cwd=R).stdout
    open(out+'/patch.diff','w').write(d)
    r=sh('go build ./... && go vet ./... ; go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok"',cwd=R)
    print(r.stdout[-1500:])
    if 'FAIL' in r.stdout: print('tests fail'); sys.exit(1)
    r=sh('bash %s/demo.sh'%out,cwd=R)
    if r.returncode in (0,3): print('demo does not fail with the patch',r.returncode,r.stdout[-2000:]); sys.exit(1)
    print('demo with the patch:',r.returncode,r.stdout[-300:])
    json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(out+'/meta.json','w'),indent=1)
    dst='/verif/seeded/'+g['ID']
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(out,dst); print('KEPT',dst)
finally:
    shutil.rmtree(W,ignore_errors=True)
