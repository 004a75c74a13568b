#!/bin/bash
# dev helper: one job, short output
echo "== $*"; T=${T:-200} TM=${TM:-180} /verif/run1.sh "$@" 2>&1 | grep -o "'paths'.*'forks': [0-9]*\|'wall_s[^,]*\|VIOL.*\|^traces.*\|^    [a-z].*\|'reach.*'incomplete.*'functions'\|rror.*\|panic.*" | cut -c1-300
