#!/bin/bash
# ad-hoc run: run.sh VARIANT ENTRY[,ENTRY] [lisym args]
V=$1; E=$2; shift 2
rm -rf ${LO:-/tmp/lo}; 
timeout 900 /verif/engine/target/release/lisym --ll /verif/target/$V/h.ll --entry $E --out ${LO:-/tmp/lo} "$@"
python3 /verif/tools/show.py ${LO:-/tmp/lo}
