"""setup: all glum modules can be loaded by the verifier, the real package can be imported (built if stale),
the solvers answer, and a deliberately false obligation is not discharged."""
import os
import sys


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from . import real, load, terms as tm
    from .prove import Prover
    real.load()
    ld = load.loader()
    for m in ("_link", "_functions", "_distribution", "_cd_fast", "_linalg", "_utils", "_validation", "_solvers", "_glm", "_glm_cv"):
        ld.module(m)
    x, y = tm.var("x", tm.R), tm.var("y", tm.R)
    sq = tm.mul(x, x)
    assert Prover([], {}).prove(tm.le(tm.ZERO, sq))[0]
    assert not Prover([], {}).prove(tm.lt(tm.ZERO, sq))[0]
    assert Prover([tm.lt(tm.ZERO, x)], {}).prove(tm.eq(tm.exp(tm.log(x)), x))[0]
    assert not Prover([], {}).prove(tm.eq(tm.exp(tm.log(x)), x))[0]
    assert not Prover([], {}).prove(tm.le(x, y))[0]
    print("verifier self-test ok")


if __name__ == "__main__":
    main()
