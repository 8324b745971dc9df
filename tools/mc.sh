#!/bin/bash
# tools/mc.sh MODULE [const=value ...]   run a model and replay it (development helper)
. /opt/vp/env.sh; cd /verif/harness && cargo build --offline --features catalog 2>&1 | grep -E "^error" -A9
cd /verif/spec; M=$1; shift; cp $M.cfg /tmp/$M.cfg; for kv in "$@"; do sed -i "s/\b${kv%%=*} = .*/${kv%%=*} = ${kv##*=}/" /tmp/$M.cfg; done
/usr/bin/time -f "tlc %es" java -Xss256m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir /tmp/tlcmeta -config /tmp/$M.cfg $M.tla > /tmp/$M.out 2>/tmp/$M.err; tail -1 /tmp/$M.err; rm -rf /tmp/tlcmeta
grep -v '^"\|^Parsing\|^Semantic\|^Computed\|^Linting' /tmp/$M.out | tail -${T:-6} | cut -c1-700
/usr/bin/time -f "replay %es" /repo/target/debug/replay /tmp/$M.f /tmp/$M.out | cut -c1-${W:-400}; python3 /verif/tools/show.py /tmp/$M.f ${N:-2} | cut -c1-1500
