#!/bin/bash
# seed_demo.sh ID...: runs only the demos, on the clean tree and with the patch, in the scratch worktree /tmp/seedwt
cd /tmp/seedwt || exit 1
git checkout -q --detach "$(git -C /repo rev-parse HEAD)"; git checkout -q -- .
mkdir -p _build; 
for id in "$@"; do
    d=/verif/seeded/$id
    bash "$d/demo.sh" >/tmp/sd.clean 2>&1; c=$?
    git apply "$d/patch.diff"; bash "$d/demo.sh" >/tmp/sd.bug 2>&1; b=$?
    git checkout -q -- .
    echo "$id clean=$c bug=$b"; [ $c = 0 ] || tail -3 /tmp/sd.clean; grep -v "^ *#\|^$" /tmp/sd.bug | head -3 | cut -c1-160
done
