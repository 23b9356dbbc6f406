import subprocess
R='/tmp/sw/'
def seed(id, prop, path, edits, needs, breaks, demo, *extra):
    p=R+path; s=open(p).read()
    for old,new in edits:
        assert s.count(old)>=1,(old,s.count(old)); s=s.replace(old,new,1)
    open(p,'w').write(s)
    subprocess.run(['python3','/verif/tools/mkseed.py',id,prop,needs,breaks,*extra],input=demo.encode(),check=True)
