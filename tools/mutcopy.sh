#!/bin/bash
# mutcopy.sh: (re)make /tmp/m/repo and /tmp/m/sim, copies on which mutate.py can work while /repo is in use.
mkdir -p /tmp/m/repo /tmp/m/sim
rsync -a --delete --exclude target --exclude .git /repo/ /tmp/m/repo/ 2>/dev/null || { rm -rf /tmp/m/repo; mkdir -p /tmp/m/repo; (cd /repo && git ls-files -z | xargs -0 cp --parents -t /tmp/m/repo); }
(cd /verif/sim && find . -path ./target -prune -o -type f -print0 | xargs -0 cp --parents -p -t /tmp/m/sim)
grep -rlE '/repo|/verif/sim' /tmp/m/sim --include=Cargo.toml --include=*.sh --include=config.toml | grep -v '/target/' | xargs sed -i 's#"/repo#"/tmp/m/repo#g; s#/repo/#/tmp/m/repo/#g; s#/tmp/m/tmp/m#/tmp/m#g; s#/verif/sim#/tmp/m/sim#g'
