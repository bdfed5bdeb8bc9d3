#!/bin/bash
# Nothing to build: the checks import FESTIM from /repo and compile variational
# forms on demand.  This fills the cache of compiled forms (.cache/dijitso, not
# in git) by running the quick tier once, so that the checks themselves are
# fast; they work without it.  Results of these runs are not used.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/.cache/dijitso" "$here/evidence"
end=$((SECONDS + ${VERIF_WARM_S:-1350}))
for p in C23 C20 C19 C16 C22 C12 C10 C11 C13 C15 C14 C09 C08 C07 C06 C05 C04 C18 C17 C03 C01 C02 C21 C24; do
  left=$((end - SECONDS))
  [ "$left" -lt 20 ] && break
  [ -f "$here/vf/props/${p,,}.py" ] || continue
  VERIF_SEED="${VERIF_SEED:-1}" timeout -k 5 "$left" "$here/check.sh" "$p" --tier quick --warm >/dev/null 2>&1
done
exit 0
