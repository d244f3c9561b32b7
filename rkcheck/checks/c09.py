"""A failed step can be retried."""
from ..history import study, FAILED


def norm(c):
    """the calls that did not fail, whatever their step sizes"""
    return tuple((x.partition(" size")[0].startswith("step"), x.partition(",")[2]) if x.startswith("step") else x for x in c if FAILED not in x)


def check(R):
    R.rule("retry", "after an exception of the nonlinear function or of inv, eig, expm at any point of an attempt, the next attempt from the same state, with the same or another size, equals that of a fresh instance")
    R.rule("reaches-the-caller", "an exception of the nonlinear function or of a linear-algebra routine during step() is raised to its caller")
    deep = R.tier == "thorough"

    def relevant(ms):
        own = {norm(c) for c, _, _ in ms if not any(FAILED in x for x in c)}
        return [(c, b) for c, b, _ in ms if len(c) > 1 and FAILED in c[-2] and norm(c) not in own]
    study(R, "retry", relevant, targets=(1, 2), depth=6 if deep else 4, most=2000 if deep else 300, faults="all" if deep else "once", resets=deep)
