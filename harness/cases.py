"""Cases whose outcome a specification computes: TLC is asked, slang has to agree."""
import json
import os
import tempfile

from common import Tlc


def ask(chk, module, cases, cfg="", workers=8, timeout=800, heap="6g", env=None):
    """Run the specification on all cases; returns the finished TLC run (its states count as evidence)."""
    fd, path = tempfile.mkstemp(suffix=".json", prefix="cases.")
    with os.fdopen(fd, "w") as f:
        json.dump(cases, f)
    e = {"CASES": path}
    e.update(env or {})
    try:
        t = Tlc(module, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + cfg, env=e, workers=workers, timeout=timeout,
                heap=heap).expect_ok()
    finally:
        os.remove(path)
    chk.add_tlc(t)
    return t
