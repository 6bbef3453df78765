#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs.  This only
verifies that the tools the checks rely on are present."""
import shutil, sys
missing = [t for t in ("meson", "ninja", "gcc", "python3", "ar", "sh") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
