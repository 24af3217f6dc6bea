#!/bin/sh
# builds the engine (instrumenter, symbolic runtime, replay runtime) into build/
cd "$(dirname "$0")" && exec python3 -c "
import check
check.os.makedirs(check.BUILD, exist_ok=True)
for f in (check.engine_inst, check.engine_rt, check.engine_replay): print(f())
"
