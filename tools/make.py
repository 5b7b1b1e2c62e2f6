import subprocess,sys,importlib.util
def seed(id,prop,edits,needs,breaks,demo):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    for f,old,new in edits:
        p='/repo/'+f; s=open(p).read()
        if s.count(old)!=1:
            print('SEED',id,'EDIT FAIL',f,s.count(old)); return
        open(p,'w').write(s.replace(old,new))
    r=subprocess.run(['bash','/verif/tools/newseed.sh',id,prop,needs,breaks],input=demo,text=True,capture_output=True)
    out=(r.stdout+r.stderr).strip().splitlines()
    print('\n'.join(l[:300] for l in out),flush=True)
    print('---',flush=True)
