#!/bin/bash
# rewrites the planted bugs whose context moved in /repo, in a scratch copy
for d in /verif/seeded/*/; do
  p=$d/patch.diff
  git -C /repo apply --check "$p" 2>/dev/null && continue
  w=$(mktemp -d /tmp/refresh.XXXX)
  cp -a /repo/. "$w"
  (cd "$w" && patch -p1 --fuzz=3 -s < "$p" && find . -name '*.orig' -delete && git diff > "$p.new") && mv "$p.new" "$p" && echo "refreshed $d" || echo "CANNOT $d"
  rm -rf "$w"
done
