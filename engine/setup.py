"""Setup: checks that the tools the framework needs are present and the directories it writes exist."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'build', 'replay'): os.makedirs(os.path.join(V, d), exist_ok=True)
import z3
missing = [t for t in ('clang++', 'g++') if not shutil.which(t)]
print('z3', z3.get_version_string(), 'missing tools:', missing)
sys.exit(1 if missing else 0)
