import os,subprocess,json,sys,shutil,tempfile
SEEDS={}
exec(open('/verif/tools/seeds_def.py').read())
DEMO='''#!/bin/bash
# exit 0: the property holds on the tree in the current directory; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo '{"Replace":{"'"$PWD"'/%szz_demo_test.go":"'"$d"'/demo_test.go.txt"}}' > "$t/o.json"
go test %s-overlay "$t/o.json" -vet=off -count=1 -timeout 250s -run '^TestDemo$' ./%s
'''
want=sys.argv[1:]
for id,x in SEEDS.items():
    prop,pkg,edits,test,needs,breaks=x[:6]; race='-race ' if x[6:] else ''
    if want and id not in want: continue
    s=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    subprocess.run(['cp','-a','/repo/.',s],check=True)
    ok=True
    for f,old,new in edits:
        t=open(f'{s}/{f}').read()
        if t.count(old)<1: print(id,'NO MATCH',f,old[:60]); ok=False; break
        open(f'{s}/{f}','w').write(t.replace(old,new,1))
    if ok:
        d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
        p=subprocess.run('git diff',shell=True,cwd=s,stdout=subprocess.PIPE).stdout
        open(d+'/patch.diff','wb').write(p)
        open(d+'/demo_test.go.txt','w').write(test.lstrip())
        pk=pkg+'/' if pkg else ''
        open(d+'/demo.sh','w').write(DEMO%(pk,race,pkg or '.')); os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        r=subprocess.run('gofmt -l $(git diff --name-only)',shell=True,cwd=s,stdout=subprocess.PIPE).stdout.decode()
        print(id,'written',('GOFMT '+r) if r else '')
    shutil.rmtree(s)
