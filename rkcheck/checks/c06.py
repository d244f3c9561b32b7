"""Coefficients always belong to the step size being used."""
from ..history import study, is_coefficient

RULE = "in every attempt the factors of the state and of the stage values are those a fresh instance computes for that step size"


def check(R):
    R.rule("own-step-size", RULE)
    deep = R.tier == "thorough"

    def relevant(ms):
        out = []
        for c, b, every in ms:
            d = is_coefficient(every)
            if d is not None:
                out.append((c, d))
        return out
    study(R, "own-step-size", relevant, targets=(1, 2, 3) if deep else (1, 2), resets=True, evolves=deep, depth=8 if deep else 4, most=2000 if deep else 300)
