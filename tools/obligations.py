"""Generates the obligations of a group of contracts and has them decided."""
import concurrent.futures as cf
import os
import re
import subprocess
import time


class Result:
    def __init__(self):
        self.discharged = 0
        self.failed = []      # (obligation, verifier output)
        self.undecided = []   # (obligation, why)
        self.functions = set()
        self.backends = {}
        self.solver = 0.0
        self.cmd = ""
        self.canaries = []

    def total(self):
        return self.discharged + len(self.failed) + len(self.undecided)


VERUS = ["verus", "--multiple-errors", "4", "--num-threads", "1", "--time"]


def verus(path, timeout, extra=()):
    """-> (verified, output, type error?)"""
    try:
        r = subprocess.run(VERUS + list(extra) + [path], env=dict(os.environ, RUST_MIN_STACK="400000000"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=max(5, timeout))
        o = r.stdout
    except subprocess.TimeoutExpired:
        return None, "timeout"
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
    if not m:
        return None, o
    return (int(m.group(1)), int(m.group(2))), o


def smt_time(o):
    m = re.search(r"total smt-time:\s+(\d+)|smt-run:?\s+(\d+)|total-smt:?\s+(\d+)", o)
    return float(next((g for g in m.groups() if g), 0)) / 1000 if m else 0.0
