import re,subprocess,collections,sys
prop,seed=sys.argv[1:3]
c=collections.defaultdict(list)
for l in open('/tmp/tri/o.txt'):
    m=re.match(r"\d+ (\(.*?\)) \[(.*?)\]",l)
    if not m: continue
    for i in m[2].split(','):
        t=subprocess.run(['/verif/sim/build/ps32','gen','--prop',prop,'--seed',seed,'--index',i.strip()],capture_output=True,text=True).stdout
        c[m[1],tuple(re.findall(r' op=(\d)',t))].append(int(i))
for k,v in c.items(): print(k,len(v),v[:8])
