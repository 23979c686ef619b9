import sys,os,json,subprocess,shutil,glob,runpy
want=set(sys.argv[1:]); ids=[]
R='/var/bug/gen'
for f in sorted(glob.glob('/var/bug/seeds/*.py')):
    S=runpy.run_path(f)['S']
    for s in S:
        if want and s['id'] not in want: continue
        subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
        for (fn,old,new) in s['edits']:
            p=R+'/'+fn; t=open(p).read()
            if t.count(old)!=1: print(s['id'],fn,'matches',t.count(old),file=sys.stderr); sys.exit(1)
            open(p,'w').write(t.replace(old,new))
        d='/var/bug/out/'+s['id']
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',R,'diff'],text=True))
        for x in glob.glob('/verif/tools/seedlib/*'): shutil.copy(x,d)
        open(d+'/demo.cpp','w').write('#include "demo.h"\n'+s['demo'] if '#include "demo.h"' not in s['demo'] else s['demo'])
        for k,v in s.get('files',{}).items(): open(d+'/'+k,'w').write(v)
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        ids.append(s['id'])
subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
print(*ids)
