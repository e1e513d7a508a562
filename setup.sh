#!/bin/bash
# Run once before the checks: compile the kernels (plain, AddressSanitizer, ThreadSanitizer builds) into .cache
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore - <<'P'
import sys, threading
sys.path.insert(0, "lib")
import native
native.seed_cache_from_repo()
err = []
def go(k):
    try:
        native.ensure(k)
    except Exception as e:
        err.append("%s: %s" % (k, e))
ts = [threading.Thread(target=go, args=(k,)) for k in ("plain", "asan", "tsan")]
[t.start() for t in ts]; [t.join() for t in ts]
print("setup done", err)
sys.exit(1 if err else 0)
P
