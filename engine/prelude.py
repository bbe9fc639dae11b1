"""Python definitions of library functions, executed symbolically by the verifier like any other code
(their agreement with the library is tested by tools/selftest.py)."""


def py_any(it):
    for x in it:
        if x:
            return True
    return False


def py_all(it):
    for x in it:
        if not x:
            return False
    return True


def py_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def py_count(seq, x):
    n = 0
    for y in seq:
        if y == x:
            n = n + 1
    return n


def py_next(it):
    for x in it:
        return x
    raise StopIteration()


def py_next_default(it, default):
    for x in it:
        return x
    return default


def py_islice_stop(it, stop):
    r = []
    for x in it:
        if len(r) >= stop:
            break
        r.append(x)
    return r


def py_islice(it, start, stop):
    r = []
    n = 0
    for x in it:
        if stop is not None and n >= stop:
            break
        if n >= start:
            r.append(x)
        n = n + 1
    return r


def py_groupby(it, key):
    """list of (key, list of elements); itertools.groupby consumed group by group"""
    groups = []
    current = []
    current_key = None
    for x in it:
        k = key(x)
        if current and k == current_key:
            current = current + [x]
        else:
            if current:
                groups.append((current_key, current))
            current = [x]
            current_key = k
    if current:
        groups.append((current_key, current))
    return groups


def py_takewhile(pred, it):
    r = []
    for x in it:
        if not pred(x):
            break
        r.append(x)
    return r


def py_dropwhile(pred, it):
    r = []
    dropping = True
    for x in it:
        if dropping and not pred(x):
            dropping = False
        if not dropping:
            r.append(x)
    return r


def py_zip_longest(a, b):
    a = list(a)
    b = list(b)
    for i in range(max(len(a), len(b))):
        yield (a[i] if i < len(a) else None, b[i] if i < len(b) else None)
