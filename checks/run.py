"""Entry point: run.py <property id>"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    env = dict(os.environ, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
sys.setrecursionlimit(3000)


def main():
    prop = sys.argv[1]
    from symx import driver, instr
    name = "h_" + prop.lower()
    f = instr.install([driver.REPO], ["skops", "hlib", "arch", name, *instr.harness_prefixes(HERE, name)],
                      instr.wants_steps(HERE, name))
    instr.EXTRA_ROOTS[:] = [HERE] + [p for p in sys.path if p.endswith("site-packages")][:1]
    check = __import__(name)
    import skops.card  # noqa
    import skops.io  # noqa
    if hasattr(check, "prepare"):
        check.prepare()
    return driver.main(prop, check)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
