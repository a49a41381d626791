"""functions run inside worker processes (importable by name)"""
import time


class Delayed:
    """maps (item, delay, fail) to item after delay seconds"""

    def __call__(self, x):
        item, delay, fail = x
        if delay:
            time.sleep(delay)
        if fail:
            raise ValueError(f'item {item} fails')
        return item


def square(x):
    return (x, x * x)


def wrap_concat(x):
    return [x]


def wrap_num(x):
    return [x]


def wrap_mat(x):
    return [x % 97, (x * 3 + 1) % 89, (x * 7 + 2) % 83, (x + 5) % 79]


def concat(a, b):
    return a + b


def add(a, b):
    return [a[0] + b[0]]


def maxi(a, b):
    return a if a[0] > b[0] else b


def mat(a, b):
    p = 10007
    return [(a[0] * b[0] + a[1] * b[2]) % p, (a[0] * b[1] + a[1] * b[3]) % p,
            (a[2] * b[0] + a[3] * b[2]) % p, (a[2] * b[1] + a[3] * b[3]) % p]


def raw(x):
    return x


def zeroes(x):
    return x % 3


def bits(x):
    return x % 8 or 7


def prod(a, b):
    return a * b % 10007


def first(a, b):
    return b if a == -1 else a


def last(a, b):
    return a if b == -1 else b


def both(a, b):
    return a & b


def slow_wrap(x):
    """items divisible by 10 take their time"""
    if x % 10 == 0:
        time.sleep(.9)
    return [x]


def slow_concat(a, b):
    if a and a[0] % 10 == 0 and len(a) < 3:
        time.sleep(.9)
    return a + b


# numbers themselves: some of them are zero (falsy) without being the identity
RAW = dict(prod=(zeroes, prod, 1), maxr=(raw, max, -2**30), first=(zeroes, first, -1), last=(zeroes, last, -1), both=(bits, both, 7))
OPS = dict(RAW, concat=(wrap_concat, concat, []), sum=(wrap_num, add, [0]), max=(wrap_num, maxi, [-2**30]),
           slowmap=(slow_wrap, concat, []), slowred=(wrap_concat, slow_concat, []),
           mat=(wrap_mat, mat, [1, 0, 0, 1]))
