import json,os,sys
here,repo,out=sys.argv[1:4]
rep={}
for f in sorted(os.listdir(os.path.join(here,"harness"))):
    if f.endswith(".go"):
        rep[os.path.join(repo,"zzverif",f)]=os.path.join(here,"harness",f)
json.dump({"Replace":rep},open(out,"w"))
