#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": turns the edits in /tmp/plant and /tmp/plant.go (the demonstration)
# into seeded/ID, and confirms that the demonstration fails with the change and passes without it.
set -e
id=$1; o=/verif/seeded/$id; mkdir -p $o
git -C /tmp/plant diff > $o/patch.diff
[ -s $o/patch.diff ] || { echo "no edit"; exit 1; }
cp /verif/tools/seedtmpl/{demo.sh,lib.go,objecthash.go} $o/
cp /tmp/plant.go $o/demo.go
chmod +x $o/demo.sh
python3 - "$@" <<'P' > $o/meta.json
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
(cd /repo && $o/demo.sh >/tmp/demo.out 2>&1) && echo "clean: ok" || { echo "clean: FAILS"; cat /tmp/demo.out; }
(cd /tmp/plant && $o/demo.sh >/tmp/demo.out 2>&1) && echo "planted: PASSES" || { echo "planted: fails as it should:"; tail -3 /tmp/demo.out; }
git -C /tmp/plant checkout -q -- .
