#!/bin/bash
# try_seed.sh ID...: is a planted change valid (applies, builds, passes the tests, demo tells) and is it caught?
V=/verif
for id in "$@"; do
  S=$V/seeded/$id; W=$(mktemp -d /tmp/seedXXXX)
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
  # the same absolute path as in the final check is not needed: demo.sh runs with cwd = the copy
  bash "$S/demo.sh" >"$W/demo0" 2>&1; d0=$?
  git apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
  cat > "$W/env.sh" <<X
$(sed "s#cd /repo#cd $W/repo#" /opt/vp/env.sh)
X
  b=$( . "$W/env.sh"; cargo test --offline --no-fail-fast 2>&1 | grep -cE '^test [^r].* FAILED|^test r[^e].* FAILED|could not compile')
  bash "$S/demo.sh" >"$W/demo1" 2>&1; d1=$?
  c=-; : >"$W/check"
  if [ -z "$NOCHECK" ]; then
    git -C /repo apply "$S/patch.diff"
    (cd $V; ./check $prop >"$W/check" 2>&1); c=$?
    git -C /repo checkout -q -- .
  fi
  echo "$id [$prop]: failing tests $b (1 expected) demo $d0/$d1 check exit $c: $(grep VIOLATION "$W/check" | head -1) $(grep -v VIOLATION "$W/check" | head -1 | cut -c1-150)"
  [ $d0 = 0 ] || tail -5 "$W/demo0"
  [ $d1 != 0 ] && grep -h "panicked" -A2 "$W/demo1" | head -3
  [ -n "$VERBOSE" ] && cat "$W/check"
  rm -r "$W"
done
