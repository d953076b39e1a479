"""setup_cmd: verifies that the vendored tools and the package under test are importable."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
sys.path.append(os.path.join(V, "vendor"))
import hypothesis
import importlib.util
assert importlib.util.find_spec("numpy") and os.path.isdir("/repo/src/qrisp")
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print("hypothesis", hypothesis.__version__, "ready")
