#!/bin/bash
# Runs all claimed checks on /repo and shows one line each.
cd "$(dirname "$0")/.." && for p in $(python3 -c "
import sys; sys.path.insert(0,'tools'); import claims; print(*sorted(claims.CLAIMED))"); do
  T=1 bin/checker check $p 2>&1 | cut -c1-200 | head -${N:-2}; done
