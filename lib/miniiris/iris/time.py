"""Stand-in for iris.time."""
import functools


@functools.total_ordering
class PartialDateTime:
    _attrs = ("year", "month", "day", "hour", "minute", "second", "microsecond")

    timetuple = None

    def __init__(self, year=None, month=None, day=None, hour=None, minute=None,
                 second=None, microsecond=None):
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second = hour, minute, second
        self.microsecond = microsecond

    def __repr__(self):
        return "PartialDateTime(%s)" % ", ".join(
            "%s=%r" % (a, getattr(self, a)) for a in self._attrs if getattr(self, a) is not None
        )

    def _pairs(self, other):
        for a in self._attrs:
            x = getattr(self, a)
            y = getattr(other, a, None)
            if x is not None and y is not None:
                yield x, y

    def __eq__(self, other):
        if isinstance(other, PartialDateTime):
            return all(getattr(self, a) == getattr(other, a) for a in self._attrs)
        if not hasattr(other, "year"):
            return NotImplemented
        return all(x == y for x, y in self._pairs(other))

    def __lt__(self, other):
        if not hasattr(other, "year"):
            return NotImplemented
        for x, y in self._pairs(other):
            if x != y:
                return x < y
        return False

    def __gt__(self, other):
        if not hasattr(other, "year"):
            return NotImplemented
        for x, y in self._pairs(other):
            if x != y:
                return x > y
        return False

    def __le__(self, other):
        return not self > other if hasattr(other, "year") else NotImplemented

    def __ge__(self, other):
        return not self < other if hasattr(other, "year") else NotImplemented

    def __hash__(self):
        return hash(tuple(getattr(self, a) for a in self._attrs))
