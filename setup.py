#!/usr/bin/env python3
"""Build what the checks need (each check also builds it on its own when missing)."""
import check, sys
for b, err in (check.build_extract(), check.build_replay(False), check.build_replay(True)):
    if err:
        print(err)
        sys.exit(1)
