"""What one check found: obligations, violations, things left undecided."""


class Report:
    def __init__(self, prop, facts):
        self.prop = prop
        self.F = facts
        self.viol = {}          # stable key -> message
        self.obl = 0            # obligations stated
        self.done = 0           # obligations discharged
        self.und = {}           # key -> why the analysis could not decide
        self.samples = []
        self.counts = {}
        self.fns = set()
        self.notes = []
        self.assume = []

    def settled(self):
        """what has been found so far, as it is, while the analysis may still be running"""
        for _ in range(100):
            try:
                r = Report(self.prop, self.F)
                for k, v in self.__dict__.items():
                    if k != 'F':
                        setattr(r, k, v.copy() if isinstance(v, (dict, list, set)) else v)
                return r
            except RuntimeError:        # changed while it was copied
                continue
        return Report(self.prop, self.F)

    def ok(self, n=1):
        self.obl += n
        self.done += n

    def bad(self, key, msg):
        self.obl += 1
        self.viol.setdefault(key, msg)

    def undecided(self, key, why):
        self.obl += 1
        self.und.setdefault(key, why)

    def check(self, cond, key, msg):
        """cond: True discharged, False violated, None undecided"""
        if cond is None:
            self.undecided(key, msg)
        elif cond:
            self.ok()
        else:
            self.bad(key, msg)
        return cond

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def saw(self, I):
        """record the functions an exploration went through"""
        for k in I.visited:
            self.fns.add(k[0])
        self.count('basic blocks', len(I.visited))
        self.count('abstract steps', I.steps)
