#!/usr/bin/env python3
"""mkbug.py ID PROP FILE <<< JSON {old,new,needs,breaks,demo} -- creates seeded/ID from a scratch worktree"""
import json,sys,os,subprocess
spec=json.load(sys.stdin) if len(sys.argv)<2 else None
def mk(id,prop,edits,needs,breaks,files):
    W='/tmp/pw/wt'
    subprocess.run(['git','-C','/repo','worktree','remove','--force',W],capture_output=True)
    subprocess.run(['rm','-rf',W]); subprocess.run(['git','-C','/repo','worktree','prune'])
    subprocess.run(['git','clone','-q','/repo',W],check=True)
    for f,old,new in edits:
        p=W+'/include/arg_router/'+f; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    d=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
    D='/verif/seeded/'+id; os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(d)
    for n,c in files.items():
        open(D+'/'+n,'w').write(c)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(D+'/meta.json','w'),indent=1)
    subprocess.run(['rm','-rf',W])
RUN='''#!/bin/bash
# Compiles and runs main.cpp against the current headers.
D=$(cd "$(dirname "$0")" && pwd); O=$(mktemp -d); trap 'rm -r "$O"' EXIT
g++ -std=c++20 -fno-rtti -O0 -Wall -Wextra -Werror -Wno-dangling-reference -I"$PWD/include" %s -o "$O/t" "$D/main.cpp" || { echo "does not compile"; exit 1; }
"$O/t"
'''
REJ='''#!/bin/bash
# good.cpp must compile and bad.cpp must not.
D=$(cd "$(dirname "$0")" && pwd)
C="g++ -std=c++20 -fno-rtti -fsyntax-only -I$PWD/include"
$C "$D/good.cpp" || { echo "good.cpp does not compile"; exit 1; }
if $C "$D/bad.cpp" 2>/dev/null; then echo "bad.cpp compiles"; exit 1; fi
'''
HDR='''#include "arg_router/arg_router.hpp"
#include <cstdlib>
#include <iostream>
#include <string>
#include <string_view>
#include <vector>
namespace ar = arg_router;
namespace arp = ar::policy;
namespace ard = ar::dependency;
using namespace ar::literals;
'''
