#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain the checks rely on is there (nothing is built ahead: every
check compiles its drivers from /repo's working tree)."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for c in (["g++", "--version"], ["clang++", "--version"]):
    r = subprocess.run(c, capture_output=True, text=True)
    print(r.stdout.splitlines()[0] if r.stdout else r.stderr)
    if r.returncode: sys.exit(1)
src = os.path.join(V, "build", "setup_probe.cpp"); exe = os.path.join(V, "build", "setup_probe")
open(src, "w").write("#include <estd/string.h>\nint main() { estd::layer1::string<8> s = \"ok\"; return !(s == \"ok\"); }\n")
r = subprocess.run(["g++", "-std=gnu++17", "-w", "-fsanitize=address,undefined", "-I/repo/src", src, "-o", exe])
sys.exit(0 if r.returncode == 0 else 1)
