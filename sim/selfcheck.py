"""setup_cmd: nothing to build; verify that the pieces the checks need are importable."""

import sys

from sim import boot

boot.pin()


def main():
    import jax
    import numpy

    import smolgp
    from sim import harness

    mods = [f"C{k:02d}" for k in range(1, 20)]
    n = 0
    for m in mods:
        try:
            harness.prop_module(m)
            n += 1
        except ModuleNotFoundError as exc:
            if m.lower() not in str(exc):
                raise
    print(f"smolgp from {smolgp.__file__}; jax {jax.__version__}; numpy {numpy.__version__}; {n} properties")
    return 0


if __name__ == "__main__":
    sys.exit(main())
