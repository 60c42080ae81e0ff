import subprocess,struct,sys,os,re,collections
exe,prop,n=sys.argv[1],sys.argv[2],int(sys.argv[3])
seed=sys.argv[4] if len(sys.argv)>4 else '1'
W=8
ps=[]
import concurrent.futures as cf
def work(w):
    out=[]; start=w
    while start<n:
        pf=f'/tmp/tri/prog{os.getpid()}_{w}'
        if os.path.exists(pf): os.remove(pf)
        cnt=(n-start+W-1)//W
        p=subprocess.run([exe,'run','--prop',prop,'--seed',seed,'--start',str(start),'--step',str(W),'--count',str(cnt),'--maxviol','100000','--progress',pf],capture_output=True,text=True,errors='replace')
        for l in p.stdout.splitlines():
            m=re.match(r'VIOL (\S+) index=(\d+) kind=(\S+) msg=(.*)',l)
            if m: out.append((m[1],m[3],int(m[2]),m[4]))
            if l.startswith('NONDET'): out.append((prop,'NONDET',int(l.split()[1]),''))
            if l.startswith('STAT'): out.append(('STAT',l.split()[1],int(l.split()[2]),''))
        if 'DONE' in p.stdout: break
        idx=struct.unpack('Q',open(pf,'rb').read(8))[0]
        m=re.search(r'FATAL kind=(\S+) msg=(.*)',p.stderr)
        if m: out.append(('CRASH',m[1]+':'+m[2],idx,''))
        else:
            sys.path.insert(0,'/verif/lib'); import planmin
            sg=planmin.signature(p.returncode,'',p.stderr)
            fr=re.findall(r'#\d+ 0x\S+ in .*?(/repo/include/poly_ops/\S+)',p.stderr)
            out.append(('CRASH',sg[0]+' '+(fr[0] if fr else ''),idx,sg[1])); start=idx+W; continue
            m=re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*)',p.stderr)
            f=re.findall(r'#\d+ .*? in (\S+?)[<(].*?(/repo\S+)',p.stderr)
            out.append(('CRASH',(m[1] if m else 'rc%d'%p.returncode)+' '+(f[0][1] if f else p.stderr[-200:]),idx,''))
        start=idx+W
    return out
st=collections.Counter(); g=collections.defaultdict(list)
with cf.ThreadPoolExecutor(W) as ex:
    for o in ex.map(work,range(W)):
        for a,k,i,m in o:
            if a=='STAT': 
                if k.startswith('max') or '_max_' in k: st[k]=max(st[k],i)
                else: st[k]+=i
            else: g[(a,k)].append((i,m))
for k,v in sorted(g.items(),key=lambda x:-len(x[1])):
    print(len(v),k,[i for i,_ in v[:7]],v[0][1][:200])
if '-s' in sys.argv: print(dict(st))
