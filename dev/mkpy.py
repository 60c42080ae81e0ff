#!/usr/bin/env python3
"""like demorun.py for mutants with a Python demo: builds+tests in lane 7 of the lab and runs the demo with and without the change"""
import sys, subprocess, os, json, importlib.util, shutil
HERE=os.path.dirname(os.path.abspath(__file__))
s=importlib.util.spec_from_file_location('m',HERE+'/mutants3.py'); mm=importlib.util.module_from_spec(s); s.loader.exec_module(mm)
s=importlib.util.spec_from_file_location('l',HERE+'/lab.py'); src=open(HERE+'/lab.py').read().rsplit('\nmain()',1)[0]
lab={}; exec(src,lab)
for m in mm.M:
    if sys.argv[1:] and m['id'] not in sys.argv[1:]: continue
    d=lab['lane'](7); lab['apply'](d,m)
    r=subprocess.run(['unshare','-Urm','bash','-c','mount --bind %s /repo && bash /opt/vp/build.sh >/tmp/lab/b7.log 2>&1'%d]).returncode
    t=lab['test'](d,m) if r==0 else 'build failed'
    w='/tmp/lab/pydemo'; shutil.rmtree(w,ignore_errors=True); shutil.copytree(HERE+'/pydemo',w)
    f=w+'/demo.sh'; x=open(f).read().replace('MODE',m['pydemo']); open(f,'w').write(x)
    p=subprocess.run(['bash',f],cwd=d,capture_output=True,text=True)
    print(m['id'],'tests:',t,'demo rc',p.returncode,(p.stdout+p.stderr)[-150:].replace('\n',' | '),flush=True)
