#!/usr/bin/env python3
"""Builds the extractor (clang based AST dumper) into /verif/build."""
import os, subprocess, sys, tempfile, threading
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCK = threading.Lock()
def ensure():
    with LOCK:
        return build()
def build():
    out, src = H + "/build/cxxdump", H + "/extract/cxxdump.cpp"
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(H + "/build", exist_ok=True)
    tmp = tempfile.mktemp(prefix="cxxdump.", dir=H + "/build")
    subprocess.check_call(["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                           "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so"])
    os.rename(tmp, out)
    return out
if __name__ == "__main__":
    ensure()
