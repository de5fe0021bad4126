"""(a module of their own: run.py is also run as __main__)"""


class Watchdog(BaseException):
    """Wall-clock guard around a case: inconclusive, never a violation."""


class Violation(Exception):
    def __init__(self, msg, key=""):
        super().__init__(msg)
        self.key = key
