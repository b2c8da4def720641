"""Runs one shard of one check in a process of its own.

usage: python -m vh.worker PROPERTY CHECK SEED N_EXAMPLES OUT_JSON JOURNAL
       python -m vh.worker PROPERTY CHECK replay FILE_OF_CASES OUT_JSON JOURNAL
       python -m vh.worker PROPERTY - known - OUT_JSON JOURNAL
"""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings

CASE_CPU_LIMIT = float(os.environ.get("VH_CASE_CPU", "100"))


def _harness_fault(exc):
    """True for errors which say nothing about the code under test."""
    from .core import HarnessError
    if isinstance(exc, (HarnessError, MemoryError, ImportError, NameError)):
        return True
    mod = type(exc).__module__ or ""
    if mod.startswith("hypothesis"):
        return True
    if isinstance(exc, AttributeError):
        # a name which the tree under test does not have (any more)
        obj = getattr(exc, "obj", None)
        return type(obj).__name__ == "module"
    return False


def find_module(prop):
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")
    for name in sorted(os.listdir(base)):
        if name.startswith(prop.lower() + "_") and name.endswith(".py"):
            return "props." + name[:-3]
    raise SystemExit("no module of property " + prop)


def load(prop):
    from . import core
    core.REGISTRY.clear()
    core.KNOWN.clear()
    importlib.import_module(find_module(prop))
    return core.REGISTRY, core.KNOWN


def _describe(exc):
    from .core import Violation
    if isinstance(exc, Violation):
        return str(exc)
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-4000:]


def main(argv):
    prop, name, mode, arg, out_path, journal_path = argv
    result = {"status": "error", "message": "worker died"}
    journal = os.open(journal_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)

    def journal_case(text):
        data = text.encode()
        os.pwrite(journal, data + b"\n", 0)
        os.ftruncate(journal, len(data) + 1)

    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")
    try:
        registry, known = load(prop)
        build = os.environ.get("VH_BUILD")
        if build:
            import eoxmagmod
            if not os.path.abspath(eoxmagmod.__file__).startswith(build + os.sep):
                raise RuntimeError("eoxmagmod imported from " + eoxmagmod.__file__)
        if mode == "known":
            found = {}
            for key, probe in known.items():
                found[key] = probe()
            result = {"status": "ok", "known": found}
        elif mode == "replay":
            result = replay(registry[name], arg, journal_case)
        else:
            history = os.open(journal_path + ".history", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            result = search(registry[name], int(mode), int(arg), journal_case,
                            lambda text: os.write(history, text.encode() + b"\n"))
    except BaseException:  # pylint: disable=broad-except
        result = {"status": "error", "message": traceback.format_exc()[-4000:]}
    with open(out_path, "w") as f:
        json.dump(result, f)
    return 0


def _arm():
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)


def _disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)


def replay(item, text, journal_case):
    from .core import Context
    """`text` is the name of a file: the cases of a history, one on each line, the last one fails"""
    ctx = Context()
    with open(text) as f:
        cases = f.read().splitlines()
    for text in cases:
        journal_case(text)
        ctx.start(text)
        _arm()
        try:
            item.func(json.loads(text), ctx)
        except Exception as exc:  # pylint: disable=broad-except
            if _harness_fault(exc):
                raise
            return {"status": "violation", "case": json.loads(text), "message": _describe(exc)}
        finally:
            _disarm()
    return {"status": "ok", "evaluations": len(cases)}


def search(item, seed, n_examples, journal_case, record):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from .core import Context
    ctx = Context()
    state = {"case": None, "message": None, "kind": None, "shrinks": 0}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n_examples, deadline=None, database=None, print_blob=False,
        report_multiple_bugs=False, derandomize=False,
        phases=(Phase.explicit, Phase.generate, Phase.shrink),
        suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example),
    )
    @given(item.strategy)
    def test(case):
        text = json.dumps(case)
        if state["kind"]:
            state["shrinks"] += 1
        journal_case(text)
        if not state["kind"]:
            record(text)        # everything up to the first failure
            ctx.start(text)
        _arm()
        try:
            item.func(json.loads(text), ctx)
        except Exception as exc:
            state["case"] = json.loads(text)
            state["message"] = _describe(exc)
            state["kind"] = "error" if _harness_fault(exc) else "violation"
            raise
        finally:
            _disarm()

    try:
        test()
    except BaseException as exc:  # pylint: disable=broad-except
        if state["kind"] == "violation":
            status = "violation"
            message = state["message"]
        else:
            status = "error"
            message = state["message"] or "".join(
                traceback.format_exception(type(exc), exc, exc.__traceback__))[-4000:]
    else:
        status, message = "ok", None
    return {
        "status": status, "message": message, "case": state["case"],
        "evaluations": ctx.evaluations, "nontrivial": len(ctx.nontrivial_cases),
        "labels": ctx.labels, "samples": ctx.samples, "shrinks": state["shrinks"],
    }


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
