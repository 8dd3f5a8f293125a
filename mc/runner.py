"""Runs the tasks of one property on all cores, prints verdicts, writes evidence and replay files."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")

CPU_LIMIT = 120  # CPU seconds for one operation before it counts as non-terminating


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def _worker(conn, seed):
    try:
        from . import env  # noqa: F401
        from . import explore, kinds, tensors

        def tick():
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)

        explore.tick = tick

        tensors.set_seed(seed)
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
    except BaseException as e:  # noqa
        conn.send(("init", _classify(e)))
        return
    while True:
        task = conn.recv()
        if task is None:
            return
        t0 = time.time()
        try:
            tick()
            out = ("ok", kinds.execute(task).as_dict())
        except Hang:
            out = ("violation", f"no termination within {CPU_LIMIT} s of CPU time")
        except BaseException as e:  # noqa
            out = _classify(e)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        conn.send((*out, time.time() - t0))


def _classify(e):
    """Did the code under test raise, or the harness?"""
    from .env import REPO

    tb = traceback.extract_tb(e.__traceback__)
    text = f"{type(e).__name__}: {e}"[:400]
    inner = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.join(REPO, "continual"))]
    if inner:
        return ("violation", f"raised {text} at {inner[-1].filename}:{inner[-1].lineno}")
    return ("error", text + "\n" + "".join(traceback.format_tb(e.__traceback__)[-4:]))


def load_findings():
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) task=(\S+) call=(\d+) (.*)", line.strip())
            if m:
                known[(m.group(1), m.group(2), int(m.group(3)))] = m.group(4)
    return known


def run_pool(tasks, seed, jobs, wall_cap, on_result):
    ctx = mp.get_context("fork")
    todo = list(reversed(tasks))
    live = {}
    t0 = time.time()
    stop_at = None
    capped = False

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, seed), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None]
        return a

    def feed(a):
        if todo:
            live[a][1] = todo.pop()
            a.send(live[a][1])
        else:
            try:
                a.send(None)
            except OSError:
                pass
            live.pop(a)[0].join(5)

    for _ in range(min(jobs, len(tasks))):
        feed(spawn())
    while live:
        ready = wait(list(live), timeout=1.0)
        for a in ready:
            p, task = live[a]
            try:
                out = a.recv()
            except (EOFError, OSError):
                p.join(5)
                live.pop(a)
                # SIGKILL: out of memory or killed from outside
                out = ("error" if p.exitcode == -9 else "violation", f"the interpreter died (exit code {p.exitcode})", 0.0)
                stop = on_result(task, out)
                if todo and not stop:
                    feed(spawn())
                continue
            if out[0] == "init":
                on_result(task, (*out[1], 0.0))
                todo.clear()
                live.pop(a)
                continue
            stop = on_result(task, out)
            if stop and stop_at is None:
                stop_at = time.time() + 10
                todo.clear()
            feed(a)
        now = time.time()
        if wall_cap and now - t0 > wall_cap and stop_at is None:
            capped = bool(todo) or any(t for _, t in live.values())
            stop_at = now
            todo.clear()
        if stop_at is not None and now > stop_at:
            for a in list(live):
                live[a][0].kill()
                live.pop(a)[0].join(5)
    return capped


def check(prop, tier, seed, jobs=None, only=None, verbose=False):
    t0 = time.time()
    from . import env, tensors  # noqa: F401

    tensors.set_seed(seed)
    mod = importlib.import_module("mc.props." + prop.lower())
    tasks = mod.tasks(tier)
    for i, t in enumerate(tasks):
        t.setdefault("prop", prop)
        t["seed"] = seed
        t.setdefault("name", hashlib.sha1(json.dumps(t, sort_keys=True).encode()).hexdigest()[:12])
    if only:
        tasks = [t for t in tasks if only in t["name"] or only in json.dumps(t)]
    tasks.sort(key=lambda t: -t.get("cost", 0))
    jobs = jobs or min(8, os.cpu_count() or 1)
    cap = float(os.environ.get("VERIF_WALL", 0)) or (600 if tier == "quick" else 36000)
    known = load_findings()
    tot = dict(states=0, transitions=0, traces=0, outputs=0, placeholders=0)
    done, errors, violations, found, samples, times = 0, [], [], [], [], []
    capped_tasks = []

    def on_result(task, out):
        nonlocal done
        if out[0] == "error":
            errors.append((task["name"], out[1]))
            if len(errors) <= 3:
                print(f"HARNESS-ERROR {json.dumps(task)[:400]}: {out[1]}", file=sys.stderr)
            return False
        if out[0] == "violation":
            vs = [dict(message=out[1], history=[])]
        else:
            r = out[1]
            for k in tot:
                tot[k] += r[k]
            if r["capped"]:
                capped_tasks.append(task["name"])
            vs = r["violations"]
            if r["sample"] and len(samples) < 400:
                samples.append((task, r["sample"]))
        done += 1
        times.append((out[-1], task["name"]))
        if verbose:
            r = out[1] if out[0] == "ok" else {}
            print(
                f"{out[-1]:7.2f}s {task['name']} {str(task.get('tree', ''))[:150]} "
                f"{ {k: r.get(k) for k in tot} } {vs[:1]}",
                flush=True,
            )
        for v in vs:
            # a finding is one history of one task, failing at its n-th call
            f = (prop, task["name"], len(v["history"]))
            if f in known:
                found.append((task["name"], known[f]))
            else:
                violations.append((task, v))
        return bool(violations)

    try:
        import continual  # noqa: F401  (once, before forking)
    except BaseException as e:  # noqa
        on_result(dict(name="import", seed=seed, kind="import"), (*_classify(e), 0.0))
        tasks = []
    capped = run_pool(tasks, seed, jobs, cap, on_result)
    wall = time.time() - t0

    for name, what in found:
        print(f"KNOWN-FINDING: property={prop} {what} [{name}]")
    for task, v in violations[:10]:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = dict(property=prop, task=task, history=v["history"], message=v["message"], seed=seed)
        h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(d, f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print(f"  {json.dumps(task)[:600]}\n  history: {v['history']}\n  {v['message']}")
        print(f"VIOLATION property={prop} replay={path}")

    complete = not capped and not capped_tasks and done == len(tasks) and not errors
    step = max(1, len(samples) // 5)
    ev = dict(
        property=prop,
        tier=tier if tier in ("quick", "thorough") else "quick",
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot["states"],
            transitions=tot["transitions"],
            traces_validated_against_impl=tot["traces"],
            samples=[
                dict(task={k: t[k] for k in t if k not in ("seed", "prop")}, longest_history=s)
                for t, s in samples[::step][:5]
            ],
            exhaustive=bool(complete),
            worlds_total=len(tasks),
            worlds_completed=done,
            calls_that_returned_outputs=tot["outputs"],
            calls_that_returned_placeholders=tot["placeholders"],
            capped_worlds=capped_tasks[:20],
            bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {}).get("all", "")),
            binding=(
                "stateless exploration: every transition is a call of the real implementation in "
                "/repo's working tree, replayed from a freshly built module"
            ),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=[
            dict(message=v["message"], history=v["history"], task=t["name"]) for t, v in violations[:10]
        ],
        known_findings=[n for n, _ in found],
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    cpu = resource.getrusage(resource.RUSAGE_CHILDREN)
    print(
        f"{prop} {tier}: {done}/{len(tasks)} worlds, {tot['states']} states, {tot['transitions']} transitions, "
        f"{tot['traces']} traces, {tot['outputs']} outputs, {tot['placeholders']} placeholders, "
        f"{len(violations)} violations, {len(found)} known, {'complete' if complete else 'CAPPED'}, "
        f"{wall:.1f}s wall, {cpu.ru_utime + cpu.ru_stime:.0f}s cpu, slowest {sorted(times)[-3:]}"
    )
    if violations:
        return 1
    if errors or (done < len(tasks) and not capped):
        return 2
    return 0
