import subprocess,sys
base=subprocess.run(["git","rev-list","--max-parents=0","HEAD"],capture_output=True,text=True).stdout.strip()
f=sys.argv[1]; a,b=int(sys.argv[2]),int(sys.argv[3])
out=subprocess.run(["git","blame","-s","--root","effector/"+f],capture_output=True,text=True).stdout.splitlines()
for i,l in enumerate(out):
    if a<=i+1<=b: print(i+1,'O' if l.lstrip('^').startswith(base[:7]) else '+', l.split(')',1)[1][1:150])
