#!/bin/bash
# tools/runbug.sh BUGID [PROP] [check args]: run the quick check of the bug's property on a scratch copy with the bug
B=/verif/seeded/$1; shift
P=${1:-$(python3 -c "import json,sys;print(json.load(open('$B/meta.json'))['property'])")}; shift
T=$(mktemp -d /tmp/runbug-XXXX); cp -a /repo $T/repo; git -C $T/repo apply $B/patch.diff || exit 9
/verif/build/gover check -prop $P -tier quick -repo $T/repo -verif /verif "$@"; R=$?
rm -rf "$T"; echo "exit $R"
