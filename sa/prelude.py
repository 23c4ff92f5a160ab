"""What some functions of the standard library compute, as source the analyser interprets in their place."""


def functools_reduce(function, iterable, *initial):
    if initial:
        total = initial[0]
        for value in iterable:
            total = function(total, value)
        return total
    first = True
    total = None
    for value in iterable:
        total = value if first else function(total, value)
        first = False
    if first:
        raise TypeError()
    return total


def itertools_dropwhile(predicate, iterable):
    dropping = True
    for value in iterable:
        if dropping and predicate(value):
            continue
        dropping = False
        yield value


def itertools_filterfalse(predicate, iterable):
    for value in iterable:
        if not predicate(value):
            yield value


def itertools_starmap(function, iterable):
    for values in iterable:
        yield function(*values)


def itertools_chain_from_iterable(iterables):
    for values in iterables:
        for value in values:
            yield value


def operator_not_(a):
    return not a


def operator_truth(a):
    return bool(a)


def operator_eq(a, b):
    return a == b


def operator_ne(a, b):
    return a != b


def operator_lt(a, b):
    return a < b


def operator_le(a, b):
    return a <= b


def operator_gt(a, b):
    return a > b


def operator_ge(a, b):
    return a >= b


def operator_add(a, b):
    return a + b


def operator_sub(a, b):
    return a - b


def operator_mul(a, b):
    return a * b


def operator_truediv(a, b):
    return a / b


def operator_floordiv(a, b):
    return a // b


def operator_mod(a, b):
    return a % b


def operator_neg(a):
    return -a


def operator_abs(a):
    return abs(a)


def operator_is_(a, b):
    return a is b


def operator_is_not(a, b):
    return a is not b


def operator_contains(a, b):
    return b in a


def operator_getitem(a, b):
    return a[b]


def operator_itemgetter(key):
    def get(value):
        return value[key]

    return get


def operator_methodcaller(name, *args, **kwargs):
    def run(value):
        return getattr(value, name)(*args, **kwargs)

    return run
