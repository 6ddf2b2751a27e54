#!/bin/bash
# reach.sh RUNS [ID...]: lists the library's branches that RUNS runs of the checks never reach.
cd "$(dirname "$0")/.." || exit 2
export SIMCHECK_PCS=1
. ./build.sh fine || exit 2
bin=sim/target-fine/release/simcheck
out=$(mktemp)
"$bin" reach "$@" >"$out" || exit 2
python3 - "$out" "$bin" <<'P'
import collections, json, subprocess, sys
rows = [l.split() for l in open(sys.argv[1])]
r = subprocess.run(['llvm-symbolizer', '--obj=' + sys.argv[2], '--output-style=JSON', '-C'], input='\n'.join(x[0] for x in rows), capture_output=True, text=True)
hit = collections.defaultdict(bool)
for (pc, h), line in zip(rows, r.stdout.splitlines()):
    for f in json.loads(line).get('Symbol', []):
        if '/repo/src/' in f['FileName']:
            hit[f['FileName'].split('/repo/')[1] + ':' + str(f['Line'])] |= h == '1'
done = sum(hit.values())
print(f'{done} of {len(hit)} source positions with a branch reached')
for k in sorted(k for k in hit if not hit[k]):
    print('never', k)
P
rm -f "$out"
