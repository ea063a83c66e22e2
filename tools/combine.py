"""combine many behaviour preserving edits in one tree: combo.py SEED DEST"""
import sys,os,shutil,random,subprocess,importlib,glob
seed,dest=int(sys.argv[1]),sys.argv[2]
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'muts'); sys.path.insert(0,V)
muts={}
for f in sorted(glob.glob(V+'/[A-Z]*.py')):
    m=importlib.import_module(os.path.basename(f)[:-3])
    for k,n,ed in m.MUTS:
        if k=='same': muts[repr(ed)]=(os.path.basename(f)[:-3],n,ed)
muts=list(muts.values()); random.Random(seed).shuffle(muts)
shutil.rmtree(dest,ignore_errors=True); os.makedirs(dest)
for x in('include','src'): shutil.copytree('/repo/'+x,dest+'/'+x)
touched=set(); applied=[]
def compiles():
    import concurrent.futures as cf
    us=glob.glob(dest+'/src/**/*.cpp',recursive=True)
    def one(u): 
        return subprocess.run(['g++','-std=gnu++23','-fsyntax-only','-w','-DFFTW=1','-DALSA_F=1','-I'+dest+'/include/maec','-I'+dest+'/include/maec/dsp','-I'+dest+'/include/maec/io',u],capture_output=True,text=True)
    with cf.ThreadPoolExecutor(6) as ex: r=list(ex.map(one,us))
    e=[x.stderr for x in r if x.returncode]
    return e
for pid,n,ed in muts:
    files={}
    ok=True
    spans=[]
    for f,o,w in ed:
        s=files.get(f) or open(dest+'/'+f).read()
        if o not in s: ok=False;break
        # avoid touching a region edited before: old text must also be in the original
        files[f]=s.replace(o,w,1)
    if not ok: continue
    old={f:open(dest+'/'+f).read() for f in files}
    for f,s in files.items(): open(dest+'/'+f,'w').write(s)
    applied.append((pid,n,old))
# bisect compile problems
e=compiles()
if e:
    print('COMPILE', e[0][:600]); 
print(len(applied),'of',len(muts))
for a in applied: print('  ',a[0],a[1])
