import sys; sys.path.insert(0,'/verif/lib'); import planmin,subprocess
exe,prop,idx=sys.argv[1:4]
t=subprocess.run([exe,'gen','--prop',prop,'--index',idx]+sys.argv[4:],capture_output=True,text=True).stdout
s,_,_,_=planmin.replay(exe,t); print(s)
m=planmin.minimise(exe,t,s[0],budget=90)
print(m); open('/tmp/tri/min_%s_%s.plan'%(prop,idx),'w').write(m)
s,_,o,e=planmin.replay(exe,m,extra=['--verbose','1']); print(s); print('\n'.join(l for l in (o+e).splitlines() if l.startswith('exec')))
