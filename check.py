#!/usr/bin/env python3
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent / "lib"))
import vp
if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        sys.exit(vp.setup())
    from props import PROPS
    sys.exit(vp.check(sys.argv[1], PROPS[sys.argv[1]]))
