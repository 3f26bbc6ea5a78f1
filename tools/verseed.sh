#!/bin/bash
# verseed.sh ID : re-verify a planted bug's demonstration in /tmp/seed/repo
D=/verif/seeded/$1
cd /tmp/seed/repo && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
$D/demo.sh >/tmp/seed/clean.log 2>&1 && echo "clean: demo ok" || { echo "clean: DEMO FAILS"; tail -15 /tmp/seed/clean.log; }
git apply $D/patch.diff || echo "PATCH DOES NOT APPLY"
$D/demo.sh >/tmp/seed/bug.log 2>&1 && echo "bug: DEMO PASSES (bad)" || { echo "bug: demo fails (good):"; tail -3 /tmp/seed/bug.log; }
git checkout -q -- .
