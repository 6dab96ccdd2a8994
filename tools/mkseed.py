#!/usr/bin/env python3
"""mkseed.py ID PROP PKG NEEDS BREAKS: takes the current diff of /repo as the patch (and undoes it); demo_test.go must be in seeded/ID already"""
import sys,os,json,subprocess
i,prop,pkg,needs,breaks=sys.argv[1:6]
d=f'/verif/seeded/{i}'; os.makedirs(d,exist_ok=True)
diff=subprocess.check_output(['git','-C','/repo','diff'],text=True)
assert diff
open(d+'/patch.diff','w').write(diff)
subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
open(d+'/demo.sh','w').write(open('/verif/tools/demo_go.sh').read().replace('PKG',pkg).replace('# demo.sh template: runs demo_test.go beside it inside the package '+pkg+' of /repo','# runs demo_test.go inside the package '+pkg))
os.chmod(d+'/demo.sh',0o755)
