"""setup_cmd: nothing to build; checks that the tools the verifier needs are present."""
import sys

from . import env


def main():
    env.setup(True)
    import z3

    s = z3.Solver()
    s.add(z3.Int("x") > 0)
    assert s.check() == z3.sat
    from metrics_layer.core.model.field import Field  # noqa: F401

    print("pyvc ready: python", sys.version.split()[0], "z3", z3.get_version_string())
    return 0


if __name__ == "__main__":
    sys.exit(main())
