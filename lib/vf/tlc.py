"""Run TLC and parse what it printed."""
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

SPEC = Path(__file__).resolve().parents[2] / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(RuntimeError):
    """TLC itself failed (parse error, evaluation error, timeout)."""


def run(module, cfg, env=None, workers=8, extra=(), timeout=800, heap="6g", ok_codes=(0,)):
    work = os.environ.get("VF_WORK") or tempfile.gettempdir()
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    full_env = dict(os.environ)
    full_env.update({k: str(v) for k, v in (env or {}).items()})
    cmd = [
        "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS,
        "-DTLA-Library=" + str(SPEC),
        "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
        "-config", str(SPEC / cfg), *extra, str(SPEC / module),
    ]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=full_env, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise TLCError(f"TLC timed out after {timeout}s on {module}") from e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    if p.returncode not in ok_codes:
        raise TLCError(f"TLC exit {p.returncode} on {module} {cfg}\n" + out[-6000:] + p.stderr[-2000:])
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return {"out": out, "generated": gen, "distinct": dis, "rc": p.returncode}
