"""Setup: nothing to install. Verifies the tools the checks rely on and prepares the scratch directories."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "replay", "evidence"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
print("ready")
