"""Writes /verif/MANIFEST.json: claimed are the properties with a module mc/props/cXX.py."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REF = "Reference: torch.nn.functional over explicitly padded frame lists plus index arithmetic (mc/nets.py), no code shared with the library."
SELF = "Oracle: a freshly built instance with the same weights driven step by step."
T = {
    "C01": ("explicit-state exploration of call histories on the real modules against a reference model", REF),
    "C02": ("explicit-state exploration of call histories on the real modules against a reference model", REF),
    "C03": ("explicit-state exploration of all cuts of a stream into calls on the real modules", SELF),
    "C04": ("explicit-state exploration of call histories with look-ahead calls at every point", SELF),
    "C05": ("explicit-state exploration of call histories with cleaning at every point", SELF),
    "C06": ("explicit-state exploration of save/restore points and of interleavings of streams", SELF),
    "C07": ("exhaustive enumeration of networks and perturbation points, measured on the real modules", "Measured: output times, dependence windows by perturbing every frame in turn, forward lengths, warm-up."),
    "C08": ("explicit-state exploration of call histories over an exhaustively enumerated network grammar", REF),
    "C09": ("explicit-state exploration of call histories over all dispatch mappings and reductions", REF),
    "C10": ("explicit-state exploration of all histories of predicate outcomes", "Oracle: the selected module alone on its routed inputs, freshly built."),
    "C11": ("explicit-state exploration of call histories over enumerated attention configurations", REF),
    "C12": ("explicit-state exploration of call histories over enumerated encoder configurations", "Reference: torch.nn.TransformerEncoder over each window."),
    "C13": ("explicit-state exploration of call histories incl. state settings and forward calls", "Reference: the cell equations; forward against torch.nn."),
    "C14": ("explicit-state exploration of call histories of a position automaton bound to the module", "Model: position counter modulo num_embeds."),
    "C15": ("exhaustive exploration of programs of contexts, exceptions, attributes and calls, and of thread schedules", "Model: a stack machine of call modes; executed modes recorded by instrumented modules."),
    "C16": ("exhaustive enumeration of modules x constructor arguments x nestings, compared with the original", "Oracle: the original torch.nn module."),
    "C17": ("exhaustive exploration of save/load/context programs over enumerated network trees", "Oracle: torch.nn's own state dicts and a model of the flattened names."),
    "C18": ("explicit-state exploration of histories with poisoned and retained tensors, twin instances and thread schedules", SELF),
    "C19": ("explicit-state exploration of exported models in onnxruntime against forward_step", "Trusts torch.onnx and onnxruntime."),
    "C20": ("exhaustive enumeration of the cuts of a stream into calls, differentiated on the real modules", "Oracle: central differences of the reference model in float64."),
    "C21": ("explicit-state exploration that closes (one state per mode) over all constructor forms and sizes", "Oracle: a formula of the call's own input."),
    "C22": ("explicit-state exploration of call histories with every memory layout and tensor class at every call", "Oracle: a fresh instance with the same weights on plain tensors."),
    "C23": ("explicit-state exploration of call histories with copies, casts, new weights and mode switches at every point", "Oracle: fresh instances with the same weights, left alone."),
    "C24": ("explicit-state exploration of streams whose every step is taken by the module or by a compiled function, handing over the state", "Oracle: the reference model (script) and the module before tracing."),
    "C25": ("exhaustive enumeration of edit and call histories of real Sequential networks", "Oracle: one reference stream per member, names from torch.nn.Sequential, a directly built network."),
    "C26": ("explicit-state exploration of call histories on user-written modules, alone and in networks", "Oracle: the reference model (windows by index arithmetic)."),
    "C27": ("explicit-state exploration of call histories, measuring storages held and operations executed; exhaustive long streams in all cuts", "Oracle: the module's own first two windows on a fresh instance."),
}
REASON = {}

checks, na = [], []
for p, (tech, note) in T.items():
    if os.path.exists(f"{V}/mc/props/{p.lower()}.py"):
        checks.append(dict(
            property=p,
            quick_cmd=f"{PY} check.py {p} --tier quick",
            thorough_cmd=f"{PY} check.py {p} --tier thorough",
            technique="model checking: " + tech,
            level="model_checking",
            level_note="Every history within the stated bounds is executed on the real code. " + note
            + " Trusts torch's kernels, float tolerances (1e-8 in float64) and the merge of states with equal fingerprints.",
        ))
    else:
        na.append(dict(property=p, reason=REASON.get(p, "its check is not built yet")))
json.dump(dict(
    version=1,
    setup_cmd=f"{PY} -c 'import torch, onnxruntime, sys; sys.exit(0)'",
    checks=checks, not_applicable=na,
    notes="Checks import the library from /repo's working tree (pure Python: nothing to build); they need no hooks in /repo.",
), open(f"{V}/MANIFEST.json", "w"), indent=1)
