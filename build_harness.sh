#!/bin/bash
# dev helper: (re)build one harness crate
cd /verif && python3 -c "
import check,sys
try:
    check.build_engine(); print(check.build_harness('$1'))
except check.CheckError as e: print(e); sys.exit(1)"
