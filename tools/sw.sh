#!/bin/bash
# sw.sh c02 nseeds [only]: seed sweep
O=${3:+--only $3}
seq 1 $2 | xargs -P 8 -I{} sh -c "VERIF_SEED={} /verif/vc/target/debug/$1 --verif /tmp/swv $O 2>&1 | grep -v '0 failed' | grep -v VIOLATION | cut -c1-400| sed 's/^/[{}] /'" | head -${LN:-12}
