#!/bin/bash
# reg.sh <driver> <module::fn>   (development helper: register a driver in main.rs)
f=/verif/harness/src/main.rs; m=${2%%::*}
grep -q "^mod $m;" $f || sed -i "0,/^mod /s//mod $m;\nmod /" $f
grep -q "\"$1\" =>" $f || sed -i "s/        d => panic/        \"$1\" => $2(\&mut ctx),\n        d => panic/" $f
