"""Stacked mappings."""
import sa
from wizard.utils.mappings import StackMutableMapping


class Ref:
    """Reference: own items and deleted keys over a parent."""

    def __init__(self, parent):
        self.parent, self.own, self.deleted = parent, {}, []

    def has(self, k):
        if k in self.own:
            return True
        if k in self.deleted or self.parent is None:
            return False
        return self.parent.has(k)

    def get(self, k):
        if not self.has(k):
            raise KeyError
        return self.own[k] if k in self.own else self.parent.get(k)

    def set(self, k, v):
        self.own[k] = v
        self.deleted = [x for x in self.deleted if x != k]

    def delete(self, k):
        if not self.has(k):
            raise KeyError
        self.own = {x: self.own[x] for x in self.own if x != k}
        self.deleted.append(k)


OPS = ("set", "delete", "pop", "setdefault")


def apply(op, m, ref, k, v):
    """An operation on a mapping and on its reference."""

    def run():
        if op == "set":
            m[k] = v
            return None
        if op == "delete":
            del m[k]
            return None
        if op == "pop":
            return m.pop(k)
        return m.setdefault(k, v)

    def reference():
        if op == "set":
            ref.set(k, v)
            return None
        if op == "delete":
            ref.delete(k)
            return None
        if op == "pop":
            r = ref.get(k)
            ref.delete(k)
            return r
        if not ref.has(k):
            ref.set(k, v)
        return ref.get(k)

    sa.expect("operation " + op, sa.record(run), sa.record(reference))


def compare(what, m, ref, keys):
    present = [k for k in keys if ref.has(k)]
    sa.expect("lookup in " + what, sa.record(lambda: [(k in m, m.get(k, None), sa.record(lambda: m[k])[0]) for k in keys]),
              sa.record(lambda: [(ref.has(k), ref.get(k) if ref.has(k) else None, "ok" if ref.has(k) else "raise") for k in keys]))
    for k in keys:
        if not ref.has(k):
            r = sa.record(lambda: m[k])
            sa.check(r[0] == "raise" and type(r[1]) is KeyError, "reading a missing key is not a key error", r)
    listed = list(m)
    sa.check(len(m) == len(present), "the length of " + what, len(m), present)
    sa.check(len(listed) == len(present), "the iteration of " + what, listed, present)
    for k in present:
        sa.check(k in listed, "a key is not listed in " + what, k, listed)


def check_mapping():
    parent = StackMutableMapping()
    rp = Ref(None)
    m = StackMutableMapping(parent)
    rm = Ref(rp)
    keys = []
    for i in range(sa.K() + 1):
        who = sa.one_of(["parent", "child"], "changed mapping")
        op = sa.one_of(OPS if who == "child" else OPS[:2], "operation")
        k = sa.sym("key" + str(i), "str")
        for j, x in enumerate(keys):
            if x == k:
                k = x
                break
        else:
            keys.append(k)
        # The last value is any that is false, the others are different
        value = sa.sym("value" + str(i), "str") if i < sa.K() or op not in ("set", "setdefault") else sa.one_of([None, "", 0, sa.sym("value", "str")], "value")
        apply(op, m if who == "child" else parent, rm if who == "child" else rp, k, value)
    other = sa.sym("other key", "str")
    for x in keys:
        sa.assume(not x == other)
    keys.append(other)
    compare("the mapping", m, rm, keys)
    compare("the parent", parent, rp, keys)
