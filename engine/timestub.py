"""Redirects the clock and sleeping of everything imported later through replaceable hooks"""
import time

real_monotonic, real_time, real_sleep = time.monotonic, time.time, time.sleep
CLOCK = None        # callable/0 when a harness controls the time
SLEEP = None        # callable/1


def monotonic():
    return real_monotonic() if CLOCK is None else CLOCK()


def time_():
    return real_time() if CLOCK is None else CLOCK()


def sleep(secs):
    return real_sleep(secs) if SLEEP is None else SLEEP(secs)


def install():
    time.monotonic, time.time, time.sleep = monotonic, time_, sleep


class controlled:
    def __init__(self, clock=None, sleep=None):
        self.clock, self.sleep = clock, sleep

    def __enter__(self):
        global CLOCK, SLEEP
        self.saved = CLOCK, SLEEP
        CLOCK, SLEEP = self.clock, self.sleep
        return self.clock

    def __exit__(self, *a):
        global CLOCK, SLEEP
        CLOCK, SLEEP = self.saved
        return False
