import sys, os
HERE=os.path.dirname(os.path.abspath(__file__))
src=open(HERE+'/lab.py').read().rsplit('\nmain()',1)[0]; lab={}; exec(src,lab)
for m in lab['load'](sys.argv[1]):
    if sys.argv[2:] and m['id'] not in sys.argv[2:]: continue
    d=lab['lane'](8); lab['apply'](d,m)
    for prop in [m['prop']]+list(m.get('also',[])):
        print(m['id'],prop,lab['check'](d,m,prop,8),flush=True)
