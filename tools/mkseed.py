#!/usr/bin/env python3
"""mkseed.py ID PROP "needs" "breaks" [extra crate ...]: takes the diff of the scratch copy /tmp/sw and demo.rs from stdin."""
import sys, subprocess, os, json, shutil
V='/verif'
i, prop, needs, breaks, *extra = sys.argv[1:]
d=f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
demo=sys.stdin.read()
diff=subprocess.check_output(['git','-C','/tmp/sw','diff','HEAD']).decode()
assert diff.strip(), 'no diff'
open(d+'/patch.diff','w').write(diff)
open(d+'/demo.rs','w').write(demo)
shutil.copy(V+'/harness/Cargo.lock', d+'/Cargo.lock')
shutil.copy(V+'/tools/demo.sh', d+'/demo.sh')
ex='\n'.join(f'{c} = {{ path = "@REPO@/packages/{c}" }}' if '=' not in c else c for c in extra)
open(d+'/demo.toml','w').write(open(V+'/tools/demo.toml').read().replace('@EXTRA@',ex))
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)
subprocess.check_call(['git','-C','/tmp/sw','checkout','--','.'])
