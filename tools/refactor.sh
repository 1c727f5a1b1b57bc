#!/bin/bash
# tools/refactor.sh PATCH P...: the checks P on a scratch copy of /repo with a behaviour-preserving patch (refactor/*.patch)
# applied; every one has to stay quiet.
here=$(cd "$(dirname "$0")/.." && pwd)
patch=$(readlink -f "$1"); shift
t=$(mktemp -d /tmp/refactor.XXXXXX)
trap 'find "$t" -delete' EXIT
cp -r /repo "$t/repo" && git -C "$t/repo" apply "$patch" || exit 2
mkdir "$t/v" && cp -r "$here"/{sa,driver,tools,known_findings.json,MANIFEST.json,properties.jsonl} "$t/v/"
[ -d "$here/bin" ] && cp -r "$here/bin" "$t/v/"
for p in "$@"; do
  ETHNUM_REPO="$t/repo" python3 "$t/v/sa/check.py" "$p" --tier quick; echo "$p rc=$?"
done
