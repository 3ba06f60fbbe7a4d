#!/usr/bin/env python3
"""Entry point of every check:  check.py ID [--tier quick|thorough] [--seed N]
                                 [--replay FILE] [--runs N] [--workers N]

Re-executes itself in a fixed environment (interpreter, hash seed, locale, no
proxies, private HOME and byte-code cache) inside a scratch directory which it
removes at the end."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")


def main():
    scratch = tempfile.mkdtemp(prefix="vsim-", dir="/tmp")
    python = "/opt/venv/bin/python"
    if not os.path.exists(python):
        python = sys.executable
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "LANG": "C.UTF-8",
        "HOME": os.path.join(scratch, "home"),
        "TMPDIR": os.path.join(scratch, "tmp"),
        "PYTHONHASHSEED": os.environ.get("VSIM_HASHSEED", "0"),
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
        "PYTHONPATH": REPO + os.pathsep + HERE,
        "PYTHONWARNINGS": "ignore",
        "NO_PROXY": "*", "no_proxy": "*",
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
        "VSIM_REPO": REPO,
        "VSIM_SCRATCH": scratch,
        "VSIM_PYTHON": python,
    }
    for k in ("VSIM_WORKERS", "VSIM_WALL"):
        if k in os.environ:
            env[k] = os.environ[k]
    try:
        for d in ("home", "tmp", "pyc"):
            os.mkdir(os.path.join(scratch, d))
        return subprocess.call([python, "-m", "vsim"] + sys.argv[1:],
                               cwd=HERE, env=env, stdin=subprocess.DEVNULL)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
