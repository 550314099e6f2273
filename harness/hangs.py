"""Time limits of the drivers: shorter after some hangs, then the jobs are skipped

Without this, code which blocks in many jobs would need more than the time of the
check.  The hangs are not expected on a correct code, so that the first ones have
the full time limit.
"""

COUNT = 0
MAX = 6


def limit(seconds):
    if COUNT == 0:
        return seconds
    return min(seconds, 30 if COUNT < 2 else 15)


def hang():
    global COUNT
    COUNT += 1


def skip():
    return COUNT >= MAX


def skipped(job):
    return {"id": job["id"], "skipped": True}
