"""Harness declarations and vocabulary shared by the check modules (works symbolically and concretely)."""


class H:
    """A harness: ``fn(cx, **kw)``; ``reach`` are labels that must be reached on some path (vacuity guard)."""

    def __init__(self, name, fn, reach=(), bounds="", weight=1, thorough_only=False, max_paths=None, **kw):
        self.name, self.fn, self.reach, self.bounds, self.kw = name, fn, tuple(reach), bounds, kw
        self.weight, self.thorough_only, self.max_paths = weight, thorough_only, max_paths
