#!/usr/bin/env python3
# mkseed.py FILE: makes seeded/<id>/ from a description:
#   seed ID PROP / needs: / breaks: / pkg: DIR / edit FILE / <<<< old ==== new >>>> / demo: go test body to end
import sys,re,os,json,subprocess,tempfile,shutil
def one(txt):
    m=re.match(r'seed (\S+) (\S+)\n',txt); sid,prop=m.groups()
    needs=re.search(r'^needs: (.*)$',txt,re.M).group(1); breaks=re.search(r'^breaks: (.*)$',txt,re.M).group(1)
    pkg=re.search(r'^pkg: (.*)$',txt,re.M).group(1)
    race=' -race' if re.search(r'^race$',txt,re.M) else ''
    demo=txt.split('\ndemo:\n',1)[1]
    w=tempfile.mkdtemp(dir='/tmp'); r=w+'/r'
    subprocess.check_call(['cp','-a','/repo',r])
    for al,f,old,new in re.findall(r'^edit(all)? (\S+)\n<<<<\n(.*?)\n====\n(.*?)>>>>$',txt.split('\ndemo:\n',1)[0],re.M|re.S):
        s=open(r+'/'+f).read(); new=new.rstrip('\n')
        assert s.count(old)==1 or al and s.count(old)>1,(sid,f,s.count(old),old)
        open(r+'/'+f,'w').write(s.replace(old,new))
    p=subprocess.check_output(['git','-C',r,'diff']).decode(); assert p
    d='/verif/seeded/'+sid; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(p)
    open(d+'/demo_test.go','w').write(demo)
    open(d+'/meta.json','w').write(json.dumps({"property":prop,"needs":needs,"what_it_breaks":breaks},indent=1)+'\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo_test.go inside package %s of the tree it is started in.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$d/demo_test.go" >"$t/o.json"
TMPDIR=$t go test%s -overlay "$t/o.json" -vet=off -count=1 -timeout 200s -run ZZDemo ./%s
''' % (pkg,pkg,race,pkg))
    os.chmod(d+'/demo.sh',0o755); shutil.rmtree(w); return sid
ids=[one(t.lstrip('\n')) for t in re.split(r'\n(?=seed )','\n'+open(sys.argv[1]).read()) if t.strip()]
for i in ids: subprocess.call(['/verif/tools/plant.sh',i]+sys.argv[2:])
