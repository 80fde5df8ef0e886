cd /verif; for p in "$@"; do timeout 800 python3 run.py $p 2>&1 | tail -${N:-3} | cut -c1-${W:-500}; done
