"""Checks that the tools the checks need are there (nothing has to be built ahead of a check)."""
import shutil, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vc"))
miss = [t for t in ("clang++", "opt-18", "llvm-extract-18", "cvc5", "python3-vt", "llvm-nm-18") if not (shutil.which(t) or os.path.exists("/usr/lib/llvm-18/bin/" + t.replace("-18", "")))]
print("missing: " + ", ".join(miss) if miss else "all tools present")
