#!/bin/bash
# plant.sh ID: confirms that seeded/ID is a bug as it should be, in a scratch copy of /repo
# plant.sh ID check [PROP]: applies it to /repo, runs the check, undoes it
d=/verif/seeded/$1
prop=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
if [ "$2" = check ]; then
  git -C /repo apply $d/patch.diff || exit 2
  (cd /verif; ./check $prop quick | cut -c1-${COLS:-300}; exit ${PIPESTATUS[0]}); rc=$?
  git -C /repo checkout -- .
  echo "$1 check rc $rc"
  exit $rc
fi
w=$(mktemp -d /tmp/plant-XXXX)
git -C /repo worktree prune
cp -a /repo $w/repo
cd $w/repo || exit 2
git checkout -q -- . 
git show dfa3931 --stat >/dev/null
run() { unshare -Urm sh -c "mount --bind $w/repo /repo && cd /repo && $1"; }
cp -a $d $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
run "bash $w/demo/demo.sh" >$w/clean.out 2>&1; c=$?
git apply $d/patch.diff || { echo "does not apply"; rm -rf "$w"; exit 2; }
git diff -U0 > $w/d
# removed lines must be original ones
git show dfa3931:$(git diff --name-only | head -1) > $w/orig
grep '^-[^-]' $w/d | cut -c2- | while IFS= read -r l; do grep -qxF -- "$l" $w/orig || echo "NOT ORIGINAL: $l"; done
run "bash /opt/vp/build.sh" >$w/b.out 2>&1; b=$?
run "bash /opt/vp/test.sh $w/t.json" 2>/dev/null | tail -1 > $w/t.out
run "bash $w/demo/demo.sh" >$w/bad.out 2>&1; p=$?
echo "$1: demo clean $c, patched $p, build $b, tests $(cat $w/t.out)"
[ $c = 0 ] || tail -3 $w/clean.out
[ $p != 0 ] || tail -3 $w/bad.out
cd /; rm -rf "$w"
