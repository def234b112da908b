"""Result records of the Python harnesses (same fields as the C++ runtime writes)."""
import json


class Shard:
    def __init__(self, name):
        self.name = name
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.exhaustive = True
        self.samples, self.caps, self.counters, self.viol, self.seen = [], [], {}, [], {}
        self.status = "ok"

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s[:400])

    def cap(self, s):
        self.exhaustive = False
        if s not in self.caps:
            self.caps.append(s)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def violation(self, key, detail, trace):
        self.seen[key] = self.seen.get(key, 0) + 1
        if self.seen[key] <= 2:
            self.viol.append({"key": key, "detail": str(detail)[:2000], "trace": str(trace)[:4000]})

    def too_many(self):
        return len(self.seen) > 12

    def record(self):
        return {"status": self.status, "states": self.states, "transitions": self.transitions, "traces": self.traces,
                "evaluations": self.evaluations, "exhaustive": self.exhaustive, "samples": self.samples, "caps": self.caps,
                "counters": self.counters, "violations": self.viol, "shard": self.name}


def write(path, shards):
    json.dump([s.record() for s in shards], open(path, "w"))
