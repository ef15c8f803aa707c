#!/bin/bash
# Runs the first N scenarios of every property twice, with different numbers of workers and hash seeds, and compares the event digests.
cd "$(dirname "$0")/.." || exit 2
N=${1:-24}
T=$(mktemp -d)
bad=0
for P in ${2:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C23}; do
    SIM_COUNT=$N SIM_WORKERS=8 SIM_HASHSEED=0 SIM_DIGESTS=$T/a ./check $P quick >/dev/null
    SIM_COUNT=$N SIM_WORKERS=3 SIM_HASHSEED=77 SIM_DIGESTS=$T/b ./check $P quick >/dev/null
    if cmp -s $T/a $T/b; then echo "$P: $(wc -l < $T/a) runs, identical digests"; else echo "$P: DIFFERENT"; diff $T/a $T/b | head -4; bad=1; fi
done
rm -r "$T"
exit $bad
