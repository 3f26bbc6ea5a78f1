#!/bin/bash
# dump.sh ENTRY INPUT [TIER]: replay natively, showing the screen and what was expected
/verif/build.sh dump && /verif/native/mk.sh dump
printf 'entry entry_%s\ntier %s\ninput %s\nsched \n' "$1" "${3:-0}" "$2" > /tmp/dump.txt
/verif/target/dump/replay /tmp/dump.txt
