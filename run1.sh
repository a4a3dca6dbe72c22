#!/bin/bash
# development helper: run one entry with the executor:  run1.sh [-o T] entry K=V... [-- extra flags]
cd "$(dirname "$0")"
omp=; if [ "$1" = -o ]; then omp=$2; shift 2; fi
e=$1; shift; P=(); while [ $# -gt 0 ] && [ "$1" != -- ]; do P+=(--param "$1"); shift; done; [ "$1" = -- ] && shift
bc=$(python3 -c "
import glob,os
import check,sys; b=check.Builder(); print(b.bitcode(bool('$omp'), '$SCALE'))
for f in glob.glob('build/cache/h_*.fail'): print(f,open(f).read()[:1500],file=sys.stderr); os.unlink(f)") || exit 2
./build/symex $bc --entry $e "${P[@]}" --workers ${W:-8} --chunks 24 --timeout ${T:-100} --out /tmp/r1.$$ ${omp:+--omp $omp} "$@"
python3 - /tmp/r1.$$ <<'PY'
import sys, json
sys.path.insert(0,'.')
from check import STATS
st={};c={};n={};v={}
for l in open(sys.argv[1]):
    w,_,r=l.strip().partition(' ')
    if w=='STAT':
        for a,x in zip(STATS,r.split()): st[a]=st.get(a,0)+float(x)
    elif w in('COVER','NOTE'):
        k,_,m=r.partition(' '); d={'COVER':c,'NOTE':n}[w]; d[m]=d.get(m,0)+int(k)
    elif w=='VIOL':
        j=json.loads(r); v.setdefault((j['kind'],j['msg'],j['func'],j['loc']),[]).append(j)
    elif w in('LOST','DONE'): print(l.strip())
print({k:(int(x) if x==int(x) else round(x,2)) for k,x in st.items() if x}); print('cover',c); 
if n: print('notes',n)
for k,j in v.items(): print(len(j),*k); print('    stack', ' < '.join(j[0]['stack'][:5])); print('    ',' '.join(f'{a}={b}' for a,b in j[0]['inputs'])[:600])
PY
rm -f /tmp/r1.$$*
