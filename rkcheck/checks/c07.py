"""The reused nonlinear term is the one of the current state."""
from ..history import study


def check(R):
    R.rule("continued-step", "an attempt that continues from the previous result, after any accepted and rejected attempts, evaluates the same stages and returns the same as a fresh instance")
    deep = R.tier == "thorough"

    def relevant(ms):
        return [(c, b) for c, b, _ in ms]
    study(R, "continued-step", relevant, targets=(1, 2, 3) if deep else (1, 2), depth=8 if deep else 4, most=2000 if deep else 300)
