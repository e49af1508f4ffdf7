"""mkseed(id, prop, file, pairs, demo body, backends, needs, breaks): create seeded dir from an edit of /repo (then reverted)."""
import subprocess, os, json, shutil
R='/tmp/rc/'
INC='''#include <cstdio>
#include <cmath>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <e_float/e_float.h>
#include <e_float/e_float_complex.h>
#include <e_float/e_float_functions.h>
#include <e_float/e_float_functions_complex.h>
static int bad = 0;
#define CHECK(c) do { if(!(c)) { std::printf("failed: %s\\n", #c); bad = 1; } } while(0)
'''
def mkseed(id, prop, edits, body, backends, needs, breaks, pre=''):
    assert subprocess.check_output(['git','-C',R,'status','--porcelain'],text=True).strip()=='', 'dirty'
    for file, pairs in edits:
        p=R+file; s=open(p,newline='').read(); crlf='\r\n' in s
        for a,b in pairs:
            if crlf: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
            assert s.count(a)==1,(file,s.count(a),a)
            s=s.replace(a,b)
        open(p,'w',newline='').write(s)
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=subprocess.check_output(['git','-C',R,'diff'])
    open(d+'/patch.diff','wb').write(diff)
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/demo.cpp','w').write(INC+pre+'int main()\n{\n'+body+'\n  return bad;\n}\n')
    open(d+'/backends','w').write(backends+'\n')
    shutil.copy('/tmp/seedtpl/demo.sh',d+'/demo.sh')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
