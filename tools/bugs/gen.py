import os,subprocess,json,sys
V='/verif/seeded'; C=open('/verif/tools/demo_common.h').read(); MK=open('/verif/tools/mksq.py').read(); T=open('/verif/tools/demo_template.sh').read()
def bug(id,prop,needs,breaks,edits,demo,img=None,flags='',src='_build/libsquash.a',asan='detect_leaks=0'):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d=f'{V}/{id}'; os.makedirs(d,exist_ok=True)
    assert not subprocess.run('git -C /repo status --porcelain',shell=True,capture_output=True,text=True).stdout
    for f,old,new in edits:
        p='/repo/'+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old),old); open(p,'w').write(s.replace(old,new))
    df=subprocess.run('git -C /repo diff',shell=True,capture_output=True,text=True).stdout; subprocess.run('git -C /repo checkout -- .',shell=True)
    open(d+'/patch.diff','w').write(df)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/common.h','w').write(C); open(d+'/demo.c','w').write('#include "common.h"\n'+demo.lstrip('\n'))
    if img: open(d+'/mksq.py','w').write(MK); open(d+'/img.py','w').write('import sys\nfrom mksq import *\n'+img.lstrip('\n')+"\nopen(sys.argv[1] + '/img', 'wb').write(image)\n")
    if src=='asan': flags+=' -fsanitize=address'; src='src/*.c'
    if src=='src': src='src/*.c'
    open(d+'/demo.sh','w').write(T.replace('@FLAGS@',flags).replace('@SRC@',src).replace('@ASAN@',asan)); os.chmod(d+'/demo.sh',0o755)
