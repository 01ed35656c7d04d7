"""Exception types shared by the symbolic and the native side (no z3 here)."""


class Unsupported(Exception):
    """The code used something which the encoding does not cover."""


class PathAbort(BaseException):
    """Abandon the current path (infeasible assumption, or search cut)."""


class Violated(Exception):
    """An assertion of the harness has a counterexample."""

    def __init__(self, label, assignment, detail=""):
        super().__init__(label)
        self.label = label
        self.assignment = assignment
        self.detail = detail


class Budget(BaseException):
    """Time or path budget used up."""
