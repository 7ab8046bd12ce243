class TargetMissing(Exception):
    """A function named by a contract does not exist (any more) with that signature."""


class SkipSample(Exception):
    """A random input does not satisfy the precondition."""


class ObligationFailed(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail
