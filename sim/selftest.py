"""setup_cmd: the toolchain the simulator needs is present and the seam builds and decides."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
d = core.scratch_base()
try:
    so = core.build_shim(d)
    p = subprocess.run([core.PY, "-B", "-c", "import turms.run, requests, rich_click" if False else "import turms.run, turms.cli.main"], env=core.worker_env(so, 0, d, {"PYTHONPATH": core.REPO}), capture_output=True, text=True, cwd=d)
    if p.returncode:
        print(p.stderr[-2000:])
        sys.exit(1)
    print("simulator ready")
finally:
    shutil.rmtree(d, ignore_errors=True)
