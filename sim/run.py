import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = core.main()
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 0) if "--worker" in sys.argv else sys.exit(rc)
