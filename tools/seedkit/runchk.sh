# runs the checks against the seeds, one after another (each check uses all cores)
cd "$(dirname "$0")"; for n in ${@:-$(ls /verif/seeded)}; do timeout 1500 python3 mkseed.py --check $n; done
