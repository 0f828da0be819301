#!/bin/bash
# runs the constructs of the standard library in engine/selftest*.cpp through the engine; prints what is not executed or fails
here="$(cd "$(dirname "$0")/.." && pwd)"; t=$(mktemp -d)
F="-std=c++17 -O1 -Xclang -disable-llvm-passes -emit-llvm -c -ffp-contract=off -D_GLIBCXX_EXTERN_TEMPLATE=0 -w -I$here/engine/stream -I$here/engine"
clang++-18 $F $here/engine/models.cpp -o $t/m.bc
for f in selftest:-1 selftest_exc:-1 $(seq -f selftest_lib:%g 1 18); do
  s=${f%:*}; clang++-18 $F $here/engine/$s.cpp -o $t/$s.bc && llvm-link-18 $t/$s.bc $t/m.bc -o $t/l.bc && $here/build/sgsym $t/l.bc --out $t/o.json --time 60 --threads 4 --param part=${f#*:} 2>/dev/null
  python3 -c "import json;r=json.load(open('$t/o.json'));print('$f','ok' if r['paths']['completed'] and not r['limits'] and not r['violations'] else 'FAILED',r['paths'],r['limits'],[v['msg'] for v in r['violations']][:3])"
done
rm -rf "$t"
