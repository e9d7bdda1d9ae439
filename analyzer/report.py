"""Results of a check."""


class Report:
    def __init__(self, prop, config=''):
        self.prop = prop
        self.config = config
        self.obligations = 0
        self.discharged = 0
        self.violations = []      # (key, text)
        self.unknowns = []        # (key, text)
        self.samples = []
        self.functions = set()
        self.paths = 0
        self.notes = []

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def violation(self, key, text):
        self.obligations += 1
        for k, _ in self.violations:
            if k == key:
                return
        self.violations.append((key, text))

    def unknown(self, key, text):
        self.obligations += 1
        for k, _ in self.unknowns:
            if k == key:
                return
        self.unknowns.append((key, text))

    def merge(self, o):
        self.obligations += o.obligations
        self.discharged += o.discharged
        for k, t in o.violations:
            if all(k != q for q, _ in self.violations):
                self.violations.append((k, t))
        for k, t in o.unknowns:
            if all(k != q for q, _ in self.unknowns):
                self.unknowns.append((k, t))
        self.samples = (self.samples + [s for s in o.samples if s not in self.samples])[:12]
        self.functions |= o.functions
        self.paths += o.paths
        for n in o.notes:
            if n not in self.notes:
                self.notes.append(n)
