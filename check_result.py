class Result:
    """findings: list of (key, text, where); counts: what was analysed"""

    def __init__(self):
        self.findings = {}
        self.counts = {}
        self.samples = []
        self.rule = ''
        self.broken = []
        self.assumptions = []
        self.exhaustive = False

    def find(self, key, text, where=None):
        if key not in self.findings:
            self.findings[key] = (text, where)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum):
        """a rule that matches (almost) nothing is broken, not satisfied"""
        if self.counts.get(name, 0) < minimum:
            self.broken.append('%s: %d found, at least %d expected' % (name, self.counts.get(name, 0), minimum))

    def sample(self, x):
        if len(self.samples) < 16:
            self.samples.append(x)
