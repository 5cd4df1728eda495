"""mkseed.py ID PROPERTY FILE  <<EOF  : writes seeded/ID from a python-literal dict on stdin:
   {"file":..., "old":..., "new":..., "needs":..., "breaks":..., "demo": C++ source [, "np": MPI ranks]} (old/new may be lists)"""
import sys,os,json,subprocess,tempfile,shutil,ast
V="/verif"; sys.path.insert(0,V+"/tools"); import vt
DEMO='''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch.  cwd: the repository.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/inc"; echo '#define HAVE_DUNE_ISTL 1
#define SUPERLU_INT_TYPE int' > "$tmp/inc/dune-istl-config.hh"
echo '#include "dune-istl-config.hh"' > "$tmp/inc/config.h"
for d in _build/include; do [ -e $d/dune-istl-config.hh ] && cp $d/dune-istl-config.hh "$tmp/inc/"; done
g++ -O1 %s -I. -I"$tmp/inc" %s "$here/demo.cc" -o "$tmp/demo" %s || exit 2
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$tmp"
timeout 120 %s"$tmp/demo"
'''
def main():
    i,p=sys.argv[1:3]; d=eval(sys.stdin.read())
    o=V+"/seeded/"+i; os.makedirs(o,exist_ok=True)
    edits=d["edits"] if "edits" in d else [(d["file"],d["old"],d["new"])]
    t=tempfile.mkdtemp(); subprocess.check_call("git -C /repo archive HEAD | tar x -C %s"%t,shell=True)
    subprocess.check_call("git init -q && git add -f -A && git -c user.name=a -c user.email=a@b commit -qm a",shell=True,cwd=t)
    for f,old,new in edits:
        s=open(t+"/"+f).read(); assert s.count(old)==1,(f,s.count(old),old); open(t+"/"+f,"w").write(s.replace(old,new))
    open(o+"/patch.diff","w").write(subprocess.check_output(["git","diff"],cwd=t,text=True)); shutil.rmtree(t)
    incl=" ".join(vt.INCL[3:])
    open(o+"/demo.cc","w").write(d["demo"].lstrip("\n"))
    np=d.get("np",0)
    open(o+"/demo.sh","w").write(DEMO%(" ".join(vt.CXXFLAGS),incl," ".join(vt.LIBS),"mpirun -np %d "%np if np else ""))
    os.chmod(o+"/demo.sh",0o755)
    json.dump({"property":p,"needs":d["needs"],"what_it_breaks":d["breaks"]},open(o+"/meta.json","w"),indent=1)
main()
