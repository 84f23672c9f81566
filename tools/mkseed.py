#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from specs (old/new text edits on /repo's HEAD)."""
import sys,os,subprocess,json,shutil,tempfile
ns={}; exec(open(sys.argv[1]).read(),ns)
for s in ns['SEEDS']:
    d='/verif/seeded/'+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w=tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
    for f,old,new in s['edits']:
        p=w+'/r/'+f; t=open(p).read()
        assert t.count(old)==1,(s['id'],f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    subprocess.call('. /opt/vp/env.sh; cd %s/r; gofmt -l $(git diff --name-only)'%w,shell=True)
    diff=subprocess.check_output(['git','-C',w+'/r','diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo_test.go.txt','w').write(s['demo'])
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the planted bug (cwd: the repository)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
cp "$D/demo_test.go.txt" "$T/demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_seed_demo_test.go\\":\\"$T/demo_test.go\\"}}" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -count=1 -timeout 250s -run '^TestSeedDemo$' ./%(pkg)s
rc=$?
rm -rf "$T"
exit $rc
'''%s)
    shutil.rmtree(w); print(s['id'])
