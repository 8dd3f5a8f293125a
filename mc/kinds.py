"""Execution of tasks: generic kinds and dispatch to the property modules."""
import importlib

from .explore import Result, Violation, World, explore, linear, run_history, tree


def make_world(task):
    w = task.get("world")
    if w is None:
        return World(task)
    mod, cls = w.split(":")
    return getattr(importlib.import_module("mc." + mod), cls)(task)


def execute(task):
    """Run one task; returns a Result. A Violation is recorded in it"""
    res = Result()
    kind = task.get("kind", "explore")
    try:
        if kind in ("explore", "tree", "linear"):
            world = make_world(task)
            if kind == "explore":
                explore(world, res, task.get("max_transitions", 10**9))
            elif kind == "tree":
                tree(world, res, lambda g, h: world.ops(g), task.get("depth", 99))
            else:
                linear(world, res, task["hist"])
        else:
            mod = importlib.import_module("mc.props." + task["prop"].lower())
            mod.run(task, res)
    except Violation as v:
        res.violations.append(dict(message=v.message, history=v.history))
    return res


def replay(task, history):
    """Re-run the failing history of a task; returns the violation or None"""
    kind = task.get("kind", "explore")
    if kind in ("explore", "tree", "linear"):
        try:
            run_history(make_world(task), history)
        except Violation as v:
            return v.message
        return None
    res = execute(task)
    return res.violations[0]["message"] if res.violations else None
