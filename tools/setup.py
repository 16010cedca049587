#!/usr/bin/env python3
"""Nothing is kept between runs: only checks that the tools are there."""
import subprocess, sys
for c in (["cargo", "--version"], ["cargo", "+nightly", "--version"]):
    print(subprocess.check_output(c, text=True).strip())
