#!/bin/bash
# plant.sh ID PROPERTY: make /verif/seeded/ID from the edited scratch copy /tmp/s/ID
# (and its demo.cc, needs.txt, breaks.txt), run the demonstration on both trees, run the check on the changed one.
set -u
ID=$1 P=$2 D=/verif/seeded/$1
mkdir -p $D
git -C /tmp/s/$ID diff > $D/patch.diff
for f in unique-factory/unique-factory/unique-factory.hpp spimpl/spimpl.h gmpxxll/gmpxxll/mpz_class.hpp hash-combine/hash.hpp; do
  mkdir -p $D/shims/external/$(dirname $f); cp /verif/shims/external/$f $D/shims/external/$f
done
cp /verif/tools/demo_run.py $D/run.py
printf '#!/bin/bash\nexec python3 "$(dirname "$0")/run.py"\n' > $D/demo.sh
python3 - $ID $P <<'P'
import json,sys
d="/verif/seeded/"+sys.argv[1]
json.dump({"property":sys.argv[2],"needs":open(d+"/needs.txt").read().strip(),"what_it_breaks":open(d+"/breaks.txt").read().strip()},open(d+"/meta.json","w"),indent=1)
P
echo "== $ID ($P)"; grep -c '^[-+][^-+]' $D/patch.diff
(cd /repo && bash $D/demo.sh 2>&1 | tail -2)
(cd /tmp/s/$ID && bash $D/demo.sh 2>&1 | tail -2)
[ "${NOCHECK:-}" ] || VERIF_REPO=/tmp/s/$ID python3 /verif/check.py $P --tier quick 2>&1 | tail -4
