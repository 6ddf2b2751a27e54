#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'breaks': stores the edits made in /tmp/w/repo as a planted bug; demo.rs is read from stdin."""
import sys,os,json,subprocess,shutil
i,prop,needs,breaks=sys.argv[1:5]
d=f'/verif/seeded/{i}'; os.makedirs(d,exist_ok=True)
diff=subprocess.run(['git','-C','/tmp/w/repo','diff'],capture_output=True,text=True,check=True).stdout
assert diff.strip()
open(d+'/patch.diff','w').write(diff)
open(d+'/demo.rs','w').write(sys.stdin.read())
shutil.copy('/verif/tools/seedkit/common.rs',d); shutil.copy('/verif/tools/seedkit/demo.sh',d)
json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
subprocess.run(['git','-C','/tmp/w/repo','checkout','-q','--','.'],check=True)
