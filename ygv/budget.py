"""Time limits: an obligation that exceeds its share is undecided, not an alarm."""
import signal
import time

DEADLINE = [None]


class OutOfTime(Exception):
    pass


def start(total):
    DEADLINE[0] = time.time() + total


class limit:
    """Raises OutOfTime inside the block after `seconds` (or when the run's total is used up)."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        s = self.s
        if DEADLINE[0] is not None:
            s = min(s, DEADLINE[0] - time.time())
        if s <= 0.01:
            raise OutOfTime("time budget of the run used up")
        self.old = signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_REAL, s)

    def fire(self, *a):
        raise OutOfTime("time budget of the obligation used up")

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False
