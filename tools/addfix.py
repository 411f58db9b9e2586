import sys,subprocess,os
prop,what=sys.argv[1:3]
h=sys.argv[3] if len(sys.argv)>3 else subprocess.run("git -C /repo rev-parse --short=7 HEAD",shell=True,capture_output=True,text=True).stdout.strip()
p="/verif/tools/mkfindings.py";s=open(p).read()
s=s.replace("]\nKNOWN",' (%r,%r,%r),\n]\nKNOWN'%(prop,h,what),1)
open(p,'w').write(s)
subprocess.check_call([sys.executable,p])
