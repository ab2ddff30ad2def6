#!/bin/bash
# survey.sh P01 [seconds] [seed] [extra]: every violation class, with an example (development aid)
P=$1; S=${2:-20}; SEED=${3:-1}; shift; shift; shift
D=$(mktemp -d)
${VERIF_BUILD:-$(dirname "$0")/../build}/sim_$P explore --prop $P --seed $SEED --seconds $S --dir $D --out $D/o.json --replay $D/r --all "$@" > $D/log 2>&1
python3 - $D <<'P'
import sys,json,re,collections
d=sys.argv[1]
c=collections.OrderedDict()
for l in open(d+'/log',errors='replace'):
    l=l.replace('harness error index','violation index'); m=re.match(r'violation index=(\d+) scenario=(\S+) seed=(\d+) class=(\S+) (.*)',l)
    if not m: continue
    k=(m[2],m[4],re.sub(r'\d+','#',m[5])[:70])
    c.setdefault(k,[]).append((m[1],m[3],m[5]))
for k,v in sorted(c.items(),key=lambda x:-len(x[1]))[:15]:
    print(len(v),k[0],k[1],'idx',v[0][0],'seed',v[0][1],v[0][2][:230])
j=json.load(open(d+'/o.json'))
print({k:j[k] for k in ('runs','nontrivial_runs','distinct_nontrivial','distinct_preemption_pairs','steps','simulated_seconds','explore_wall_s','harness_errors')})
print({k:v for k,v in j['faults_fired'].items() if v}); print(j['probes']); print(j['scenarios'])
P
rm -rf "$D"
