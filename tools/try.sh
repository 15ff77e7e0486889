# usage: try.sh harness seconds props...
h=$1; t=$2; shift 2
mkdir -p /var/tmp/w
cd /verif; python3 sim/build.py $h 2>&1 | grep -E 'error|undefined' | head -10 | cut -c1-300
for p in $@; do echo == $p; mapfile -t K < <(python3 /verif/tools/known.py $p); timeout 200 build/$h/sim --property $p --harness $h --seed ${SEED:-1} --seconds $t --workers 8 --out /var/tmp/w/o_$p.json --replay-out /var/tmp/w/r_$p.txt "${K[@]}" 2>&1 | grep -v "^20" | tail -4 | cut -c1-400; done; python3 /verif/tools/sum.py $@ | cut -c1-900
