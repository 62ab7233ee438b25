import os,subprocess,json,sys,stat
S='/verif/seeded'
R=os.environ.get('SEED_REPO','/repo') # a scratch copy

CC='''#!/bin/bash
# Builds demo.cc against the libraries of the tree in the working directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
inc=$(find "$repo/Source" -name '*.hh' -not -path '*/Geant/*' -printf '-I%h\\n' | sort -u)
L=$repo/_build/repo/Source
g++ -std=gnu++11 -O1 -w -I/usr/include/hdf5/serial $inc "$here/demo.cc" -o "$t/demo" \\
    -L"$L/IO" -L"$L/Physics" -L"$L/Particles" -L"$L/Tools" \\
    -lIO -lPhysicsQED -lParticles -lTools -lIO -lPhysicsQED -lParticles -lTools \\
    -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 \\
    -Wl,-rpath,"$L/IO:$L/Physics:$L/Particles:$L/Tools"
export QED_TABLES_PATH=$repo/Tables
cd "$t"
timeout 120 ./demo
'''
def mk(id,prop,needs,breaks,edits,files,demo=None):
    d=f'{S}/{id}'; os.makedirs(d,exist_ok=True)
    for f,o,n in edits:
        p=R+'/'+f; s=open(p,newline='').read()
        assert s.count(o)==1,(id,f,o,s.count(o))
        open(p,'w',newline='').write(s.replace(o,n))
    diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C',R,'checkout','--','.'],capture_output=True)
    open(d+'/patch.diff','w').write(diff)
    for k,v in files.items(): open(d+'/'+k,'w').write(v)
    open(d+'/demo.sh','w').write(demo or CC); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
