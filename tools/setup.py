#!/usr/bin/env python3
"""Nothing to prepare: every check builds what it needs.  Verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("cargo", "cargo-kani", "rustc") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
print("ok")
