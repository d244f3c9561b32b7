"""A reset or a new evolve forgets everything about earlier runs."""
from ..history import study


def suffix(c):
    i = max([k for k, x in enumerate(c) if x == "reset()"], default=-1)
    return c[i + 1:]


def relevant(ms):
    """mismatches after a reset or in an evolve that do not occur on a fresh instance as well"""
    own = {c for c, _, _ in ms if "reset()" not in c}
    out = []
    for c, b, _ in ms:
        if c[-1].startswith("evolve("):
            if c[-1:] not in own or len(c) == 1 and b[0] == "trajectory":
                out.append((c, b))
        elif "reset()" in c and suffix(c) not in own:
            out.append((c, b))
    return out


def check(R):
    R.rule("forgets", "attempts after reset() and whole evolutions equal those of a fresh instance, whatever steps, rejections, failures, resets and evolutions came before")
    R.rule("empty", "after reset() the stored times and states are empty")
    deep = R.tier == "thorough"
    study(R, "forgets", relevant, targets=(1, 2), resets=True, evolves=True, depth=8 if deep else 4, most=2000 if deep else 300, faults="once" if deep else False, lists="empty")
