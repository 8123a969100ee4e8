#!/bin/bash
# dev.sh CRATE HARNESS [symex options]: builds and runs one harness
cd /verif && python3 tools/build.py $1 > /tmp/dev.err; if grep -q "^error" /tmp/dev.err; then grep -A12 "^error" /tmp/dev.err | head -${ERR:-60}; exit 1; fi
L=build/ir_$1/release/deps/$(case $1 in el) echo symx;; wn) echo symx_wn;; *) echo symx_$1;; esac).ll
shift
rm -f /tmp/dev.json*
timeout 900 build/symex/release/symex $L $1 --out /tmp/dev.json --time 600 "${@:2}" 2>&1 | head -25
python3 - <<'P'
import json,glob
t={};rs=[json.load(open(f)) for f in sorted(glob.glob('/tmp/dev.json*'))]
for r in rs:
    for k in ('paths','errors','aborts','nviol'):
        for a,b in r[k].items(): t.setdefault(k,{}); t[k][a]=t[k].get(a,0)+b
print({k:sum(r[k] for r in rs) for k in ('instrs','queries','props','hard')}, 'wall',max(r['wall_s'] for r in rs),'solver',round(sum(r['solver_s'] for r in rs),1),'maxq',max(r['max_query_s'] for r in rs), 'reached',sorted({x for r in rs for x in r['reached']}))
for k in t: print(' ',k,json.dumps(t[k])[:1500])
for v in [v for r in rs for v in r['violations']][:4]: print('  VIOL',v['kind'],v['msg'],v['input'][:300])
P
