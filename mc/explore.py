"""Stateless depth-first exploration of a choice tree, with replay."""


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # (chosen, n, label)

    def choose(self, n, label=""):
        if n <= 0:
            raise ValueError("empty choice")
        if n == 1:
            return 0
        i = len(self.trace)
        pick = self.prefix[i] if i < len(self.prefix) else 0
        if pick >= n:
            raise AssertionError(
                f"replay diverged at choice {i} ({label}): {pick} >= {n}"
            )
        self.trace.append((pick, n, label))
        return pick

    def pick(self, options, label=""):
        options = list(options)
        return options[self.choose(len(options), label)]

    def flag(self, label=""):
        return bool(self.choose(2, label))

    @property
    def choices(self):
        return [c for c, _, _ in self.trace]


def executions(limit=None, prefix=()):
    """Yield Choosers covering the whole tree; run the execution on each before
    asking for the next.  ``prefix`` pins the first choices."""
    base = len(prefix)
    current = list(prefix)
    count = 0
    while True:
        ch = Chooser(current)
        yield ch
        count += 1
        if limit is not None and count >= limit:
            return
        trace = ch.trace
        i = len(trace) - 1
        while i >= base and trace[i][0] + 1 >= trace[i][1]:
            i -= 1
        if i < base:
            return
        current = [c for c, _, _ in trace[:i]] + [trace[i][0] + 1]
