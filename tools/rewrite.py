"""auto.py KIND DEST : tree-wide behaviour preserving rewriting"""
import sys,os,re,shutil,glob,subprocess
kind,D=sys.argv[1],sys.argv[2]
shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
for x in('include','src'): shutil.copytree('/repo/'+x,D+'/'+x)
def blank(s):
    """same length, comments and strings blanked"""
    def r(m): return re.sub(r'[^\n]',' ',m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'',r,s,flags=re.S)
def match(b,i):
    o=b[i]; c={'{':'}','(':')'}[o]; d=0
    for j in range(i,len(b)):
        if b[j]==o: d+=1
        elif b[j]==c:
            d-=1
            if d==0: return j
    return None
n=0
def stmt_end(b,i):
    while b[i].isspace(): i+=1
    if b[i]=='{': return i,match(b,i)+1
    return i,None
def loops(s):
    """for(a;b;c){..} without continue -> {a; while(b){.. c;}}"""
    global n
    pos=len(s)
    while True:
        b=blank(s); ms=[m for m in re.finditer(r'\bfor \(',b) if m.start()<pos]
        if not ms: return s
        m=ms[-1]; pos=m.start()
        p=m.end()-1; q=match(b,p); i,e=stmt_end(b,q+1)
        if e is None: continue
        head=s[p+1:q]; body=s[i+1:e-1]; bb=b[i:e]
        if re.search(r'\bcontinue\b',bb): continue
        if b[p:q].count(';')==2:
            cut=[k for k in range(p,q) if b[k]==';']
            a,c,inc=s[p+1:cut[0]],s[cut[0]+1:cut[1]],s[cut[1]+1:q]
            new='{ %s; while (%s) {%s %s; } }'%(a,c.strip() or 'true',body,inc)
        elif b[p:q].count(';')==0:
            k=[x.start() for x in re.finditer(r'(?<!:):(?!:)',b[p:q])]
            if not k: continue
            a,c=s[p+1:p+k[0]],s[p+k[0]+1:q]
            new='{ auto&& rng_%d = %s; for (auto it_%d = std::begin(rng_%d); it_%d != std::end(rng_%d); ++it_%d) { %s= *it_%d; %s } }'%(n,c.strip(),n,n,n,n,n,a,n,body)
        else: continue
        n+=1
        s=s[:m.start()]+new+s[e:]
def elses(s):
    global n
    pos=len(s)
    while True:
        b=blank(s); ms=[m for m in re.finditer(r'\bif \(',b) if m.start()<pos]
        if not ms: return s
        m=ms[-1]; pos=m.start()
        p=m.end()-1; q=match(b,p); i,e=stmt_end(b,q+1)
        if e is None: continue
        cond=s[p+1:q]
        if ';' in b[p:q]: continue
        mm=re.match(r'\s*else\s*\{',b[e:])
        if mm:
            j=e+mm.end()-1; k=match(b,j)+1
            new='if (!(%s)) %s else %s'%(cond,s[j:k],s[i:e]); end=k
        elif re.match(r'\s*else\b',b[e:]): continue
        else:
            new='if (!(%s)) {} else %s'%(cond,s[i:e]); end=e
        n+=1
        s=s[:m.start()]+new+s[end:]
def funcs(s,hdr):
    """wrap the body of void functions in a lambda / move into"""
    global n
    b=blank(s); pos=len(s)
    rx=re.compile(r'\b(void|int|bool|double|std::size_t|BaseModule\*|float|int64_t|uint32_t)\s+(?:[A-Za-z_][\w:<>,\* ]*::)?[A-Za-z_]\w*\s*(\([^;{}()]*\))\s*(const)?\s*(override|noexcept|final)?\s*\{')
    for m in reversed(list(rx.finditer(b))):
        if re.search(r'(constexpr|operator)[^\n;{}]*$',b[:m.start()].split('\n')[-1]): continue
        i=m.end()-1; e=match(b,i)
        body=s[i+1:e]
        if not body.strip(): continue
        t=m.group(1)
        if re.search(r'\b(if constexpr|requires)\b',b[i:e]): continue
        if t=='void': new='{ [&]() -> void {%s}(); }'%body
        else: new='{ auto whole = [&]() -> %s {%s}; return whole(); }'%(t,body)
        n+=1
        s=s[:i]+new+s[e+1:]; 
    return s
def rets(s):
    global n
    def r(m):
        global n; n+=1
        return '{ auto&& val_%d = %s; return val_%d; }'%(n,m.group(1),n)
    return s
def comp(s):
    """i++ -> i += 1; a < b -> b > a in loop heads; += spelled out"""
    global n
    b=blank(s)
    for m in reversed(list(re.finditer(r'(?<![\w\)\]\+])(\+\+([a-z]\w*)|([a-z]\w*)\+\+)(?=\s*[;)])',b))):
        if b[:m.start()].rstrip()[-1:] not in ';{},)' : continue
        v=m.group(2) or m.group(3); n+=1
        s=s[:m.start()]+'%s += 1'%v+s[m.end():]
    b=blank(s)
    for m in reversed(list(re.finditer(r'; ([a-z]\w*) < ([\w\.\->\(\)]+);',b))):
        n+=1; s=s[:m.start()]+'; %s > %s;'%(s[m.start(2):m.end(2)],m.group(1))+s[m.end():]
    return s
def this(s):
    """make member accesses by this-> unqualified where a line assigns/uses this->x"""
    global n
    k=s.count('this->'); n+=k
    return re.sub(r'this->(?=[a-z_]\w*)','(*this).',s)
def names(a):
    out=[]; d=0; cur=''
    for ch in a:
        if ch in '<({[': d+=1
        if ch in '>)}]': d-=1
        if ch==',' and d==0: out.append(cur); cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur)
    r=[]
    for x in out:
        x=x.split('=')[0].strip(); m=re.search(r'([A-Za-z_]\w*)$',x)
        if not m or ' ' not in x and '&' not in x and '*' not in x: return None
        r.append((x,m.group(1)))
    return r
DECL={}
def extract(s,f):
    """every method's body moves to a new method it calls"""
    global n
    b=blank(s)
    rx=re.compile(r'\n([ \t]*)((?:virtual )?)((?:std::unique_ptr<\w+>|void|int|bool|double|std::size_t|BaseModule\*|float|int64_t|u?int(?:32|16)_t|AudioBuffer|long double|BaseEnvelope\*))\s+((?:[A-Z]\w*::)?)([a-z_]\w*)\s*\(([^;{}]*?)\)\s*(const)?\s*(override|noexcept|final)?\s*\{')
    for m in reversed(list(rx.finditer(b))):
        pre=b[:m.start()].rstrip()[-60:]
        if re.search(r'(constexpr|template\s*<[^;{}]*>|requires[^;{}]*)$',pre): continue
        ind,virt,t,cls,nm,args=m.group(1),m.group(2),m.group(3),m.group(4),m.group(5),s[m.start(6):m.end(6)]
        if f.endswith('.cpp') and not cls: continue
        if f.endswith('.hpp') and not ind: continue
        ns=names(re.sub(r'//[^\n]*|/\*.*?\*/','',args,flags=re.S))
        if ns is None: continue
        i=m.end()-1; e=match(b,i); body=s[i+1:e]
        if not body.strip() or 'if constexpr' in body: continue
        cv=' const' if m.group(3+4) else ''
        n+=1; new='%s_step%d'%(nm,n)
        call='%sthis->%s(%s);'%('' if t=='void' else 'return ',new,', '.join('static_cast<decltype(%s)&&>(%s)'%(x[1],x[1]) for x in ns))
        decl='%s %s%s(%s)%s'%(t,cls,new,', '.join(x[0] for x in ns),cv)
        s=s[:i]+'{ %s }\n%s%s {%s}'%(call,ind,decl,body)+s[e+1:]
        if cls: DECL.setdefault(cls[:-2],[]).append(decl.replace(cls,'',1)+';')
    return s
def rng(s, each):
    global n
    pos=len(s)
    while True:
        b=blank(s); ms=[m for m in re.finditer(r'\bfor \(',b) if m.start()<pos]
        if not ms: return s
        m=ms[-1]; pos=m.start()
        p=m.end()-1; q=match(b,p); i,e=stmt_end(b,q+1)
        if e is None or b[p:q].count(';'): continue
        k=[x.start() for x in re.finditer(r'(?<!:):(?!:)',b[p:q])]
        if not k: continue
        a,c=s[p+1:p+k[0]].strip(),s[p+k[0]+1:q].strip(); body=s[i+1:e-1]; bb=b[i:e]
        if each:
            if re.search(r'\b(continue|break|return)\b',bb): continue
            a=re.sub(r'^const auto ','const auto ',a)
            new='{ auto&& rng_%d = %s; std::for_each(std::begin(rng_%d), std::end(rng_%d), [&](%s) {%s}); }'%(n,c,n,n,a,body)
        else:
            if re.search(r'\bcontinue\b',bb): continue
            new='{ auto&& rng_%d = %s; const auto num_%d = std::size(rng_%d); for (std::size_t k_%d = 0; k_%d < num_%d; ++k_%d) { %s = rng_%d[k_%d]; %s } }'%(n,c,n,n,n,n,n,n,a,n,n,body)
        n+=1
        s=s[:m.start()]+new+s[e:]
def types(s):
    global n
    s,k=re.subn(r'for \(int (\w+) = ',r'for (long \1 = ',s); n+=k
    pass
    return s
def early(s):
    """a trailing if of a void function becomes a guard"""
    global n
    pos=len(s)
    while True:
        b=blank(s); ms=[m for m in re.finditer(r'\bif \(',b) if m.start()<pos]
        if not ms: return s
        m=ms[-1]; pos=m.start()
        p=m.end()-1; q=match(b,p); i,e=stmt_end(b,q+1)
        if e is None or ';' in b[p:q]: continue
        if not re.match(r'\s*\}\s*\n\s*\n',b[e:]): continue
        # enclosing brace must be a void function
        d=0; j=m.start()-1
        while j>=0:
            if b[j]=='}': d+=1
            elif b[j]=='{':
                if d==0: break
                d-=1
            j-=1
        line=b[:j].rstrip().split('\n')[-1]
        if not re.match(r'\s*(virtual )?void .*\)\s*(override|const)?$',line): continue
        n+=1
        s=s[:m.start()]+'if (!(%s)) { return; } %s'%(s[p+1:q],s[i+1:e-1])+s[e:]
def dead(s):
    """statements without effect at the start of every function of a source file"""
    global n
    b=blank(s)
    rx=re.compile(r'\)\s*(const)?\s*(override|noexcept|final)?\s*\{\n')
    for m in reversed(list(rx.finditer(b))):
        if re.search(r'\b(if|for|while|switch|requires)\b',b[:m.start()].split('\n')[-1]) or 'constexpr' in b[:m.start()].split('\n')[-1]: continue
        n+=1; s=s[:m.end()]+'    int unused_%d = 0; ++unused_%d; (void)unused_%d;\n'%(n,n,n)+s[m.end():]
    return s
for f in sorted(glob.glob(D+'/src/**/*.cpp',recursive=True)+glob.glob(D+'/include/**/*.hpp',recursive=True)):
    s=open(f).read(); o=s
    for k in kind.split('+'):
        s=s if not s else {'extract':lambda x:extract(x,f),'types':types,'early':early,'dead':dead,'index':lambda x:rng(x,0),'each':lambda x:rng(x,1),'loops':loops,'elses':elses,'comp':comp,'this':this,'funcs':lambda x:funcs(x,f.endswith('hpp'))}[k](s)
    if s!=o:
        s=s.replace('#pragma once','#pragma once\n#include <algorithm>\n#include <iterator>',1) if f.endswith('hpp') else '#include <algorithm>\n#include <iterator>\n'+s
        open(f,'w').write(s)
for f in glob.glob(D+'/include/**/*.hpp',recursive=True):
    s=open(f).read()
    for c,l in DECL.items():
        m=re.search(r'\n(class|struct) %s\b[^;{]*\{'%c,s)
        if m: s=s[:m.end()]+('\nprivate:\n' if m.group(1)=='class' else '\n')+'\n'.join(l)+'\n'+s[m.end():]
    open(f,'w').write(s)
print(n,'rewrites')
import concurrent.futures as cf
us=glob.glob(D+'/src/**/*.cpp',recursive=True)
one=lambda u: subprocess.run(['g++','-std=gnu++23','-fsyntax-only','-w','-DFFTW=1','-DALSA_F=1','-I'+D+'/include/maec','-I'+D+'/include/maec/dsp','-I'+D+'/include/maec/io',u],capture_output=True,text=True)
with cf.ThreadPoolExecutor(7) as ex:
    for u,r in zip(us,ex.map(one,us)):
        if r.returncode: print(u,'\n'.join(l for l in r.stderr.split('\n') if 'error' in l)[:500])
