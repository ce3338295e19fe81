#!/bin/bash
# re.sh ID: re-apply and re-validate a planted bug
git -C "${REPO:-/repo}" apply /verif/seeded/$1/patch.diff && bash /verif/tools/seedkit/new.sh $1
