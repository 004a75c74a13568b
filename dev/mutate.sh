#!/bin/bash
# run.sh SEED N [files]
mount --bind /tmp/mut/repo /repo && mount --bind /tmp/mut/verif /verif || exit 3
cd /verif && exec nice -n 10 python3 /tmp/mut/mutate.py "$@"
