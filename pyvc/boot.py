"""Process start-up shared by the symbolic and the native servers."""
import hashlib
import importlib.machinery
import importlib.util
import os
import pathlib
import subprocess
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
EXT = "grain/_src/python/experimental/index_shuffle"
SO = EXT + "/python/index_shuffle_module.so"


def build(scratch, force_so=True):
  """Builds the products /repo lacks, and the extension from current source.

  Writes only into `scratch`.  Returns None or an error text.
  """
  repo = pathlib.Path(REPO)
  procs = []
  for p in sorted(repo.glob("grain/**/*.proto")):
    rel = p.relative_to(repo)
    if not p.with_name(p.stem + "_pb2.py").exists():
      procs.append(subprocess.Popen(
          [PY, "-m", "grpc_tools.protoc", f"-I{REPO}", f"--python_out={scratch}",
           str(rel)], cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
  if force_so or not (repo / SO).exists():
    out = os.path.join(scratch, SO)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cc = [str(p.relative_to(repo)) for p in sorted(repo.glob(EXT + "/**/*.cc"))
          if not p.name.endswith("_test.cc")]
    inc = subprocess.run([PY, "-m", "pybind11", "--includes"], capture_output=True,
                         text=True).stdout.split()
    procs.append(subprocess.Popen(
        ["g++", "-std=c++17", "-O2", "-g0", "-fPIC", "-shared",
         "-fvisibility=hidden", "-w", "-I."] + inc + cc +
        ["-o", out, "-labsl_strings", "-labsl_strings_internal",
         "-labsl_raw_logging_internal"],
        cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
  err = None
  for p in procs:
    _, e = p.communicate()
    if p.returncode:
      err = e.decode()[-2000:]
  return err


class Products:
  """Finds build products in the scratch directory."""

  def __init__(self, scratch):
    self.scratch = scratch

  def find_spec(self, name, path, target=None):
    if not name.startswith("grain."):
      return None
    base = os.path.join(self.scratch, *name.split("."))
    for f in (base + ".so", base + ".py"):
      if os.path.exists(f):
        return importlib.util.spec_from_file_location(name, f)
    return None


def start(symbolic, scratch, extra=()):
  os.environ["JAX_PLATFORMS"] = "cpu"
  os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
  sys.dont_write_bytecode = True
  if VT not in sys.path:
    sys.path.append(VT)
  if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
  import logging as pylog
  pylog.disable(pylog.ERROR)
  from absl import flags
  from pyvc import instrument
  if symbolic:
    instrument.install(True, extra=tuple(extra))
  else:
    instrument.install(False)
  sys.meta_path.insert(0, Products(scratch))
  import grain  # noqa: F401
  flags.FLAGS(["x"] + (["--grain_py_traceback_filtering=off"] if symbolic else []))
  from absl import logging
  logging.set_verbosity(logging.FATAL)
  if symbolic:
    from pyvc import shims
    shims.install()
  assert grain.__file__.startswith(REPO), grain.__file__


def source_digest():
  h = hashlib.sha256()
  for p in sorted(pathlib.Path(REPO).glob("grain/**/*")):
    if p.suffix in (".py", ".cc", ".h", ".proto") and p.is_file():
      h.update(str(p).encode() + b"\0" + p.read_bytes())
  return h.hexdigest()[:16]
