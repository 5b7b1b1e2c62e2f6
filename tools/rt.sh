#!/bin/bash
# rt.sh MSG : run tests, commit all changes in /repo when nothing is missing
cd /repo; r=$(bash /verif/tools/repotest.sh 2>&1); echo "$r" | tail -5
if echo "$r" | grep -q "missing 0"; then git commit -qam "$1" && git log --oneline | head -1; fi
