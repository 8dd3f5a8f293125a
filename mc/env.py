"""Process set-up: import the code under test from /repo's working tree, nothing else."""
import os
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")
# Dependencies may come from their bytecode caches
for name in ("torch", "torch.onnx", "torch._dynamo", "pytorch_lightning", "ptflops", "onnxruntime"):
    try:
        __import__(name)
    except ImportError:
        pass
# Never read cached bytecode of the code under test: always compile the current sources
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-such-pycache-%d" % os.getpid())
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

import warnings  # noqa: E402

warnings.filterwarnings("ignore")

import logging  # noqa: E402

logging.disable(logging.CRITICAL)

import torch  # noqa: E402

torch.set_num_threads(1)
torch.set_grad_enabled(True)
