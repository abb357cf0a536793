import importlib, sys
from . import check

def run(pid):
    if pid == "--setup":
        from . import build
        print(build.engine())
        return
    mod = importlib.import_module("hjv.props." + pid.lower())
    check.main(pid, mod.run)
