import sys,os,json,subprocess,difflib
# usage: from mkbug import bug
DEMO='''#!/bin/bash
# exit 0: the property holds; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
B=/repo/_build
g++ -std=c++20 -O1 -DNDEBUG -w -DSEQUANT_ASSERT_BEHAVIOR_=THROW -DSEQUANT_ASSERT_ENABLED \\
  -DSEQUANT_CONTEXT_MANIPULATION_THREADSAFE -I/repo -isystem $B -isystem /usr/include/eigen3 \\
  "$D/demo.cpp" -o "$T/demo" -L$B -lSeQuant-mbpt -lSeQuant-export -lSeQuant-optimize \\
  -lSeQuant-eval -lSeQuant-symb -lSeQuant-core -lSeQuant-bliss -lboost_locale -lboost_chrono -lboost_thread -lpthread || exit 2
LC_ALL=C.UTF-8 timeout 200 "$T/demo"
'''
HEAD='''#include <SeQuant/core/context.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/runtime.hpp>
#include <iostream>
using namespace sequant;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; bad = 1; } } while (0)
static std::shared_ptr<IndexSpaceRegistry> registry() {
  auto isr = std::make_shared<IndexSpaceRegistry>();
  isr->add(L"i", 0b01, is_vacuum_occupied, is_reference_occupied, is_hole)
      .add(L"a", 0b10, is_particle)
      .add_union(L"p", {L"i", L"a"}, is_complete)
      .add(L"x", 0b100, IndexSpace::QuantumNumbers(8));
  isr->physical_particle_attribute_mask(0);
  return isr;
}
static void init(Vacuum v = Vacuum::SingleProduct) {
  set_num_threads(1);
  set_default_context(Context({.index_space_registry_shared_ptr = registry(), .vacuum = v}));
}
'''
def bug(id, prop, edits, demo, needs, breaks, includes='', head=HEAD, utf=False):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=''
    byf={}
    for f,o,n in edits: byf.setdefault(f,[]).append((o,n))
    for f,l in byf.items():
        s=open('/repo/'+f).read(); t=s
        for o,n in l:
            assert t.count(o)==1,(f,t.count(o),o)
            t=t.replace(o,n)
        diff+=''.join(difflib.unified_diff(s.splitlines(1),t.splitlines(1),'a/'+f,'b/'+f))
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO.replace('"$D/demo.cpp" -o','-I"$D" "$D/demo.cpp" /repo/SeQuant/core/utility/string.cpp -o') if utf else DEMO)
    if utf:
        import shutil; os.makedirs(d+'/utfcpp-src/source',exist_ok=True); shutil.copy('/verif/shim/utfcpp-src/source/utf8.h',d+'/utfcpp-src/source/utf8.h')
    0
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(includes+head+demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    r=subprocess.run(['git','-C','/repo','apply','--check',d+'/patch.diff']); assert r.returncode==0
    print(id)
