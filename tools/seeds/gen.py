import os,subprocess,shutil,json,sys
exec(open('/tmp/seeds/seeds.py').read())
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOFLAGS='-mod=mod')
base='/tmp/seeds/repo'
def sh(cmd,cwd=base,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=env,capture_output=True,text=True,**k)
if os.path.isdir(base): shutil.rmtree(base)
shutil.copytree('/repo',base,symlinks=True)
out='/verif/seeded'
os.makedirs(out,exist_ok=True)
only=sys.argv[1:]
HEAD='''package main

import (
%s)

// %s
func main() {%s}
'''
for s in SEEDS:
    if only and s['id'] not in only: continue
    sh('git checkout -q -- . && git clean -fdq')
    d=f"{out}/{s['id']}"
    os.makedirs(d,exist_ok=True)
    for f in os.listdir(d): os.remove(f'{d}/{f}')
    ok=True
    for e in s['edits']:
        f,old,new=e[:3]
        p=f'{base}/{f}'; t=open(p).read()
        if old.endswith('\n$'):
            o=old[:-1]; 
            if not t.endswith(o): print(s['id'],'NO EOF MATCH'); ok=False; continue
            t=t[:-len(o)]+new[:-1]
        elif len(e)>3:
            parts=t.split(old)
            if len(parts)<=e[3]: print(s['id'],'NO MATCH n'); ok=False; continue
            t=old.join(parts[:e[3]])+new+old.join(parts[e[3]:])
        else:
            if t.count(old)!=1: print(s['id'],'MATCHES',t.count(old),f,repr(old[:60])); ok=False; continue
            t=t.replace(old,new)
        open(p,'w').write(t)
    if not ok: continue
    r=sh('gofmt -l $(git diff --name-only)')
    if r.stdout: sh('gofmt -w $(git diff --name-only)')
    main=s['main']; imps=list(s['imports'])
    extra=''
    if main.startswith('$OLDSTORE'): two=main.endswith('2'); main=OLDSTORE; shutil.copy('/tmp/seeds/dump2.go' if two else '/tmp/seeds/dump.go',d+'/dump.go')
    if main.startswith('$TREE'):
        main={'$TREE':TREE,'$TREE2':TREE2,'$TREE3':TREE3}[main]
        imps+=['github.com/mem-memov/semnet/internal/concrete/'+x for x in ('class','fact','story')]
    else: imps.append('github.com/mem-memov/semnet')
    imps=''.join(f'\t"{i}"\n' for i in imps)
    open(f'{d}/main.go','w').write(HEAD%(imps,s['breaks'],main if main.endswith('\n') else main+'\n'))
    shutil.copy('/tmp/seeds/lib.go',d)
    shutil.copy('/tmp/seeds/demo.sh',d); os.chmod(f'{d}/demo.sh',0o755)
    if s['prop']=='C29':
        t=open(f'{d}/demo.sh').read().replace('go run .','CGO_ENABLED=1 GORACE=halt_on_error=1 go run -race .'); open(f'{d}/demo.sh','w').write(t)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(f'{d}/meta.json','w'),indent=1)
    diff=sh('git diff').stdout
    open(f'{d}/patch.diff','w').write(diff)
    r=sh("go build $(go list -e ./... | grep -v mock/phrase) && go test ./... 2>&1 | grep -v 'no test files' | grep -v '^ok'")
    bad=[l for l in r.stdout.splitlines() if 'FAIL' in l and 'mock/phrase' not in l and 'concrete/detail [build failed]' not in l and l.strip()!='FAIL']
    p=sh(f'sh {d}/demo.sh')
    sh('git checkout -q -- . && git clean -fdq')
    u=sh(f'sh {d}/demo.sh')
    status='OK' if u.returncode==0 and p.returncode not in (0,2) and not bad and ('FAIL' in p.stdout or 'DATA RACE' in p.stderr) else 'BAD'
    print(status,s['prop'],s['id'],'unpatched',u.returncode,'patched',p.returncode,p.stdout.strip()[:110],bad,r.stderr[-300:] if status=='BAD' else '', (u.stdout+u.stderr+p.stderr)[-400:] if status=='BAD' else '')
