#!/bin/bash
# development: dev.sh harness variant... : build and run single harness builds, short output
cd "$(dirname "$0")"; h=$1; shift
for v in "$@"; do python3 - "$h" "$v" <<'PY'
import sys; sys.argv,h,v=[sys.argv[0]],sys.argv[1],sys.argv[2]
sys.path.insert(0,'/verif')
import check,re,os
os.makedirs('/tmp/w/dev',exist_ok=True)
out,rc,log,dt=check.compile_one(h,v,'/tmp/w/dev')
print(f"{h}.{v} compile rc={rc} {dt:.1f}s")
if rc: print("\n".join([l for l in log.splitlines() if 'error' in l][:12])); sys.exit()
r=check.run_one(out,v,['--seed',os.environ.get('VERIF_SEED','1'),'--tier',os.environ.get('VERIF_TIER','quick')],600)
d,vi,e=check.interpret(r)
print(f"  run rc={r['rc']} {r['wall']:.2f}s", (d or {}).get('evaluations'), (d or {}).get('checks'), 'distinct', (d or {}).get('distinct'))
for x in vi[:12]: print("   ",x['key'],x['section'],x['case'],x['times'],x['msg'][:300],'|',x['desc'][:200])
if e: print("   ERR",e[:600])
if d is None: print(r['err'][:1500])
elif os.environ.get('V'): print({k:n for k,n in d['counters'].items()})
if d and d['metrics']: print('   ',d['metrics'])
PY
done
