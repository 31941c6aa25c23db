#!/bin/bash
# orc.sh NAME [SEED] [SECS]: run one harness directly
cd "$(dirname "$0")/../vc" && python3-vt -c "
import sys; sys.argv=['x']
import check
print(check.run_oracle('$1', ${2:-1}, ${3:-5}, 'quick'))"
