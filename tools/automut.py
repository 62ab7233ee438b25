import sys,os,re,random,subprocess,shutil,time,json
random.seed(int(sys.argv[1])); N=int(sys.argv[2]); FILT=sys.argv[3] if len(sys.argv)>3 else ''
V='/tmp/auto/verif'+sys.argv[1]
shutil.rmtree(V,ignore_errors=True); subprocess.check_call(['git','clone','-q','/verif',V])
R='/repo/'
MAP=[('IO/Output/OutputManager.cpp',['C05','C03','C02']),('IO/Output/HDF5Output.cpp',['C05','C22']),('IO/Output/Histogram.cpp',['C06']),
('IO/Input/FileParser.cpp',['C10','C11']),('IO/Input/INIReader.cpp',['C09','C10','C11']),('IO/Input/ini.cpp',['C09']),
('Particles/SourceGenerator.cpp',['C18','C12']),('Particles/',['C23','C07','C14']),
('EMField/',['C17']),('ParticlePushers/',['C13','C23']),('Processes/ContinuousEmission',['C15','C12']),('Processes/StochasticEmission',['C14','C12']),
('Processes/PhotonEmission',['C14','C15','C11']),('Processes/NonLinear',['C16','C11']),('Python/RunManager.cpp',['C21','C12','C08','C07','C01']),('Python/QEDCascPy-B',['C21','C12']),
('Exec/QEDCASC.cpp',['C12','C07','C11','C08','C02','C03']),('Tools/MCTools',['C04']),('Tools/Numerics',['C19']),('Tools/Three',['C20']),('Tools/Units',['C10','C12','C21'])]
def checks(f):
    for k,v in MAP:
        if k in f: return v
def muts(line):
    out=[]
    code=re.sub(r'//.*','',line)
    for m in re.finditer(r'(<=|>=|==|!=|&&|\|\|)',code):
        rep={'<=':['<'],'>=':['>'],'==':['!='],'!=':['=='],'&&':['||'],'||':['&&']}[m.group()]
        for r in rep: out.append(line[:m.start()]+r+line[m.end():])
    for m in re.finditer(r' (<|>) ',code):
        out.append(line[:m.start()]+{'<':' <= ','>':' >= '}[m.group(1)]+line[m.end():])
    for m in re.finditer(r' ([-+*/]) ',code):
        out.append(line[:m.start()]+{'+':' - ','-':' + ','*':' / ','/':' * '}[m.group(1)]+line[m.end():])
    for m in re.finditer(r'\[([012])\]',code):
        out.append(line[:m.start()]+'[%d]'%((int(m.group(1))+1)%3)+line[m.end():])
    for m in re.finditer(r'(?<![\w."\[])(\d+\.?\d*)(?![\w"\]])',code):
        out.append(line[:m.start()]+{'0':'1','1':'2'}.get(m.group(1),'(%s+1)'%m.group(1))+line[m.end():])
    for m in re.finditer(r'\b(true|false)\b',code):
        out.append(line[:m.start()]+{'true':'false','false':'true'}[m.group()]+line[m.end():])
    if re.match(r'^\s*[\w\->\[\]\.\(\)]+(\s*[-+*]?=[^=]|\().*;\s*$',code) and not re.match(r'^\s*(return|delete|std::cerr|std::cout|else)',code):
        out.append(re.match(r'^\s*',line).group()+';\n')
    if re.match(r'^\s*(if|} else if) \(.*\)\s*(\{)?\s*$',code): 
        m=re.search(r'if \((.*)\)',code); out.append(line[:m.start()]+'if (!('+m.group(1)+'))'+line[m.end():])
    return [o for o in out if o!=line]
cand=[]
fs=subprocess.run(['git','-C',R,'ls-files','Source'],capture_output=True,text=True).stdout.split()
for f in fs:
    if 'Geant' in f or not re.search(r'\.(cpp|hh)$',f) or not checks(f) or (FILT and not re.search(FILT,f)): continue
    incomment=False; L=open(R+f,newline='').readlines()
    for i,l in enumerate(L):
        if '/*' in l: incomment=True
        if incomment:
            if '*/' in l: incomment=False
            continue
        if l.strip().startswith(('#','//')) or 'std::c' in l: continue
        for o in muts(l): cand.append((f,i,l,o))
random.shuffle(cand)
# spread over the files
seen={}; pick=[]
byf={}
for c in cand: byf.setdefault(c[0],[]).append(c)
w=[(random.random()**(1/ (len(v)**0.6)),f) for f,v in byf.items()]
while len(pick)<N and any(byf.values()):
    f=random.choices([f for f in byf if byf[f]],[len(byf[f])**0.7 for f in byf if byf[f]])[0]; pick.append(byf[f].pop())
print(len(cand),'candidates',flush=True)
d='/tmp/auto/w'+sys.argv[1]; shutil.rmtree(d,ignore_errors=True); os.makedirs(d); subprocess.check_call('git -C /repo archive HEAD | tar x -C '+d,shell=True)
log=open('/tmp/auto/log%s.txt'%sys.argv[1],'a')
for n,(f,i,l,o) in enumerate(pick):
    p=d+'/'+f; L=open(p,newline='').readlines(); L[i]=o; open(p,'w',newline='').writelines(L)
    t=time.time(); st='SURVIVED'; 
    for c in checks(f):
        try: r=subprocess.run(['nice','-n','5','python3',V+'/check.py',c],env=dict(os.environ,VP_REPO=d,VERIF_TIER='quick'),capture_output=True,text=True,timeout=400); rc,out=r.returncode,r.stdout+r.stderr
        except subprocess.TimeoutExpired: rc,out='timeout',''
        if 'cannot compile' in out or 'cannot link' in out: st='nocompile'; break
        if rc!=0: st='killed %s rc=%s'%(c,rc); break
    print('%d %s %.0fs %s:%d\n   - %s   + %s'%(n,st,time.time()-t,f,i+1,l.strip()+'\n',o.strip()),file=log,flush=True)
    L[i]=l; open(p,'w',newline='').writelines(L)
