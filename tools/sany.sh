#!/bin/bash
cd /verif/spec; for m in "$@"; do timeout 60 java -cp ../build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla 2>&1 | grep -v "^Parsing\|^Semantic\|^$\|SANY2 Ver" | head -30; done
