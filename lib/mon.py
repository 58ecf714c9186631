"""The monitor object passed to every case, and the violation exception."""
import hashlib, json


class Violation(Exception):
    pass


class Monitor(object):
    def __init__(self):
        self.counters = {}
        self.states = set()
        self.inputs = set()
        self.samples = []
        self.known_seen = set()
        self.listed = set()
        self.events = 0          # checked events in the current case
        self._digest = None
        self._sample = None

    # -- per case
    def begin(self):
        self.events = 0
        self._digest = None
        self._sample = None

    def end(self):
        if self.events and self._digest is not None:
            self.inputs.add(self._digest)
            if len(self.samples) < 2:
                self.samples.append(self._sample)

    def input(self, kind, obj):
        """Register what the case runs on: for counting distinct inputs and for samples."""
        text = json.dumps([kind, obj], sort_keys=True, default=str)
        self._digest = hashlib.md5(text.encode()).hexdigest()[:16]
        self._sample = text if len(text) < 1500 else text[:1500] + "..."

    # -- findings recorded in KNOWN_FINDINGS.txt, told apart by their exact text
    def known(self, text):
        if text not in self.listed:
            raise Violation(text)
        self.known_seen.add(text)

    # -- observations
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def event(self, name, n=1):
        """An observation the oracle decided on."""
        self.events += n
        self.count(name, n)

    def state(self, *sig):
        if len(self.states) < 20000:
            self.states.add(repr(sig))

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)
