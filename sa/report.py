"""What a rule run produces: violations, and an account of what was analysed."""
RULES = {}


def rule(pid, title):
    def deco(f):
        RULES[pid] = (title, f)
        return f
    return deco


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = {}  # key -> (message, [chain])
        self.analysed = set()
        self.paths = 0
        self.sites = {}
        self.obligations = []
        self.assumptions = []
        self.counts = {}

    def violation(self, key, msg, chain=()):
        self.violations.setdefault(key, (msg, list(chain)))

    def ob(self, what, n=1):
        """An obligation that was decided (how many instances)."""
        self.obligations.append((what, n))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def need(self, what, have, floor=1):
        """The analysis must have met at least `floor` instances of what it is about; fewer means that the
        construct carrying the guarantee is gone."""
        self.counts[what] = self.counts.get(what, 0) + have
        if have < floor:
            self.violation(f"missing:{what}", f"expected at least {floor} × {what}, found {have}: the construct this guarantee rests on is gone")

    def absorb(self, it, prefix=""):
        """Take over what an interpreter run saw."""
        for k, (msg, chain) in it.reports.items():
            self.violation(prefix + k, msg, chain)
        self.analysed |= {it.prog.fns[i].def_ for i in it.visited}
        self.paths += it.steps
        for d, s in it.event_sites.items():
            self.sites.setdefault(d, set()).update(s)
