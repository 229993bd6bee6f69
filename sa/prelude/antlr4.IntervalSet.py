class IntervalSet:
    def __init__(self):
        self.intervals = None
        self.readonly = False

    def addOne(self, v):
        if self.intervals is None:
            self.intervals = []
        if v not in self.intervals:
            self.intervals.append(v)

    def addRange(self, r):
        for v in r:
            self.addOne(v)

    def addSet(self, other):
        for v in other.intervals or []:
            self.addOne(v)
        return self

    def removeOne(self, v):
        if self.intervals is not None and v in self.intervals:
            self.intervals.remove(v)

    def __contains__(self, item):
        return self.intervals is not None and item in self.intervals

    def __iter__(self):
        return iter(self.intervals or [])

    def __len__(self):
        return len(self.intervals or [])
