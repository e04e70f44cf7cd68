"""Minimises a failing choice stream, keeping the kind of violation."""
import time


def shrink(values, fails, budget_s, max_attempts=400):
    """`fails(values)` returns the values actually consumed if the run still
    violates the property in the same way, else None."""
    deadline = time.monotonic() + budget_s
    attempts = [0]
    best = list(values)

    def trial(candidate):
        nonlocal best
        if attempts[0] >= max_attempts or time.monotonic() > deadline:
            return False
        attempts[0] += 1
        used = fails(candidate)
        if used is None:
            return False
        used = list(used)
        while used and used[-1] == 0:
            used.pop()
        if (len(used), sum(1 for v in used if v), sum(used)) < (len(best), sum(1 for v in best if v), sum(best)):
            best = used
            return True
        return False

    improved = True
    while improved and attempts[0] < max_attempts and time.monotonic() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = max(0, len(best) - size)
            while i >= 0 and len(best) > 0:
                if trial(best[:i] + best[i + size:]):
                    improved = True
                elif any(best[i:i + size]) and trial(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i -= size
                if attempts[0] >= max_attempts or time.monotonic() > deadline:
                    return best, attempts[0]
            size //= 2
        for i in range(len(best)):
            while i < len(best) and best[i] > 0 and trial(best[:i] + [best[i] // 2] + best[i + 1:]):
                improved = True
    return best, attempts[0]
