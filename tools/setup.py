#!/usr/bin/env python3
"""setup_cmd: compile every checker once (each check compiles again what it needs)."""
import os, subprocess, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for crate, args in (("mc", ["--profile", "checked"]), ("mc", ["--profile", "release"]), ("mc", ["--bin", "c18"]),
                    ("mcs", ["--profile", "checked"]), ("mc16", [])):
    r = subprocess.run(["cargo", "build", "--offline", "--locked", *args], cwd=os.path.join(here, crate))
    if r.returncode:
        sys.exit(r.returncode)
