"""Python-level implementations interpreted by the VM (builtins which call back or iterate lazily)."""


def _list(it):
    out = []
    for x in it:
        out.append(x)
    return out


def _tuple(it):
    out = []
    for x in it:
        out.append(x)
    return tuple(out)


def _set(it):
    out = set()
    for x in it:
        out.add(x)
    return out


def _call1(f, it, ix, args):
    vals = []
    for x in it:
        vals.append(x)
    args = list(args)
    args[ix] = vals
    return f(*args)


def _callkw(f, it, ix, args, kw):
    vals = []
    for x in it:
        vals.append(x)
    args = list(args)
    args[ix] = vals
    return f(*args, **kw)


def _all(it):
    for x in it:
        if not x:
            return False
    return True


def _any(it):
    for x in it:
        if x:
            return True
    return False


def _map1(f, it):
    out = []
    for x in it:
        out.append(f(x))
    return out


def _map2(f, a, b):
    out = []
    for x, y in zip(a, b):
        out.append(f(x, y))
    return out


def _filter(f, it):
    out = []
    if f is None:
        for x in it:
            if x:
                out.append(x)
        return out
    for x in it:
        if f(x):
            out.append(x)
    return out


def _reduce(f, it):
    first = True
    acc = None
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = f(acc, x)
    return acc


def _reduce3(f, it, acc):
    for x in it:
        acc = f(acc, x)
    return acc


def _minkey(it, key):
    first = True
    for x in it:
        k = key(x)
        if first:
            best, bk, first = x, k, False
        elif k < bk:
            best, bk = x, k
    if first:
        raise ValueError('min() iterable argument is empty')
    return best


def _maxkey(it, key):
    first = True
    for x in it:
        k = key(x)
        if first:
            best, bk, first = x, k, False
        elif k > bk:
            best, bk = x, k
    if first:
        raise ValueError('max() iterable argument is empty')
    return best


def _sorted(it, key, reverse):
    out = []
    keys = []
    for x in it:
        k = x if key is None else key(x)
        i = len(out)
        while i > 0 and (k > keys[i - 1] if reverse else k < keys[i - 1]):
            i -= 1
        out.insert(i, x)
        keys.insert(i, k)
    return out


def _chain(*its):
    out = []
    for it in its:
        for x in it:
            out.append(x)
    return out


def _vectorize(f, a, out):
    for ix in range(len(a)):
        out[ix] = f(a[ix])
    return out


def _remove(lst, x):
    for i in range(len(lst)):
        if lst[i] is x or lst[i] == x:
            del lst[i]
            return None
    raise ValueError('list.remove(x): x not in list')


def _index(lst, x):
    for i in range(len(lst)):
        if lst[i] is x or lst[i] == x:
            return i
    raise ValueError('x is not in list')


def _dictcomp(pairs):
    d = {}
    for k, v in pairs:
        d[k] = v
    return d


def _iter2(f, sentinel):
    out = []
    while True:
        v = f()
        if v == sentinel:
            return out
        out.append(v)
