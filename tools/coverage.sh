#!/bin/bash
# Which lines of the library do the workloads reach? (development aid; needs build/cov) usage: coverage.sh OUTDIR [FRACTION]
out=$1; frac=${2:-6}; here=$(cd "$(dirname "$0")/.." && pwd); cd "$here" || exit 1
mkdir -p "$out"; python3 -c "import check; check.build('cov')" || exit 1
python3 - "$frac" <<'P' > "$out/jobs"
import sys; sys.path.insert(0,'.')
import plan
done=set()
for p in plan.PLAN.values():
    for r in p['runs']:
        if r['module'] in done: continue
        done.add(r['module']); n=max(8,r['quick']//int(sys.argv[1]))
        if r.get('wrap'): n=r['quick']
        k=4
        for i in range(k): print(r['module'], i*n//k, (i+1)*n//k)
P
export out
xargs -P 8 -L 1 bash -c 'LLVM_PROFILE_FILE="$out/$0-$1.profraw" timeout 900 build/cov/vmon $0 --seed 77 --from $1 --to $2 --out /dev/null >/dev/null 2>&1 || true' < "$out/jobs"
llvm-profdata-18 merge -sparse "$out"/*.profraw -o "$out/all.profdata" && find "$out" -name "*.profraw" -delete
objs=$(find build/cov -name "*.so" | sed 's/^/-object /' | tr '\n' ' ')
llvm-cov-18 report $objs -instr-profile="$out/all.profdata" > "$out/report.txt" 2>/dev/null
llvm-cov-18 show $objs -instr-profile="$out/all.profdata" > "$out/show.txt" 2>/dev/null
tail -1 "$out/report.txt"
