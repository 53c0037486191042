"""A package "siren" whose Python modules are the real ones and whose compiled modules are replaced by plain classes with the
same interface (the one bound in projects/*/private/pybindings)."""
import importlib.util, logging, os, sys, tempfile, types
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python")
BASE = os.path.realpath(tempfile.mkdtemp(prefix="py-", dir=os.environ.get("VERIF_SCRATCH")))
os.environ["HOME"] = BASE
sys.dont_write_bytecode = True
class Anything(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return type(n, (), {})
PKG = os.path.join(BASE, "siren"); os.makedirs(PKG); open(os.path.join(PKG, "__init__.py"), "w").close()
sys.path.insert(0, BASE)
for n in ("numpy", "awkward", "h5py"): sys.modules[n] = Anything(n)
import siren
for n in ("dataclasses", "math", "interactions", "detector", "utilities", "injection", "distributions", "geometry", "hepmc3"):
    m = Anything("siren." + n); sys.modules["siren." + n] = m; setattr(siren, n, m)
def load(n):
    s = importlib.util.spec_from_file_location("siren." + n, os.path.join(SRC, n + ".py")); m = importlib.util.module_from_spec(s); sys.modules["siren." + n] = m; s.loader.exec_module(m); setattr(siren, n, m); return m
logging.disable(logging.CRITICAL)
np, ak, h5py = sys.modules["numpy"], sys.modules["awkward"], sys.modules["h5py"]
np.array = lambda x, dtype=None: [dtype(v) if dtype else v for v in x]
