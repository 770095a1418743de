#!/bin/bash
# builds tools/bas from /repo/source with ASan+UBSan into /tmp/p/bas
R=${REPO:-/repo}; O=${OUT:-/tmp/p/bas}
gcc -w -g -std=c11 -DPC ${DEF} -fsanitize=address,undefined -fno-sanitize=shift,signed-integer-overflow,alignment $(for d in "" graphics/pc graphics interpreter subsystem extension; do echo -I$R/source/$d; done) /verif/tools/bas.c $(find $R/source -name '*.c' | grep -v -e main.c -e blockalloc -e opengl_test -e /nds/) -o $O -lm -lcsfml-audio -lcsfml-graphics -lcsfml-window -lcsfml-system
