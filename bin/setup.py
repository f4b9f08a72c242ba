#!/usr/bin/env python3
"""Checks that the tool chain the checks need is there (the checks build everything themselves)."""
import subprocess, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"), exist_ok=True)
r = subprocess.run(["g++", "-std=c++20", "-fsanitize=address,undefined", "-x", "c++", "-", "-o", "/dev/null"],
                   input="int main(){}", text=True)
sys.exit(r.returncode)
