"""Functions for the soundness test of the engine (selftest.py): each is run on a symbolic list of numbers."""


def first(xs):
    r = []
    for x in xs:
        if len(r) == 0:
            r.append(x)
    return r


def distinct(xs):
    r = set()
    for x in xs:
        if x not in r:
            r |= {x}
    return len(r)


def only_first(xs):
    r = set()
    for x in xs:
        if not r:
            r |= {x}
    return r


def nested_append(xs):
    ls = [[x] for x in xs]
    for l in ls:
        l.append(5)
    return [len(l) for l in ls]


def nested_dict(xs):
    ls = [{'a': x} for x in xs]
    return [d['a'] for d in ls]


def nested_dict_changed(xs):
    ls = [{'a': x} for x in xs]
    for d in ls:
        d['a'] = 0
    return [d['a'] for d in ls]


def dict_optional(xs):
    ls = []
    for x in xs:
        ls.append({'a': x, 'b': None if x > 2 else x + 1})
    return [d['b'] for d in ls if d['b'] is not None]


def alias(xs):
    a = []
    b = a
    for x in xs:
        b.append(x)
    return len(a)


def shared(xs):
    a = []
    ls = [a for _ in xs]
    for l in ls:
        l.append(1)
    return len(a)


def total(xs):
    t = 0
    for x in xs:
        t += x
    return t


def running(xs):
    r, t = [], 0
    for x in xs:
        t += x
        r.append(t)
    return r


def last(xs):
    y = -1
    for x in xs:
        y = x
    return y


def break_first(xs):
    for x in xs:
        if x > 2:
            break
    else:
        return -1
    return x


def early(xs):
    for x in xs:
        if x > 2:
            return x
    return None


def evens(xs):
    return [x for x in xs if x % 2 == 0]


def positions(xs):
    return [i for i, x in enumerate(xs) if x > 1]


def sort(xs):
    return sorted(xs)


def rsort(xs):
    return sorted(xs, reverse=True)


def uniq_sorted(xs):
    return sorted(set(xs))


def pairs(xs):
    return [x + y for x in xs for y in xs]


def biggest(xs):
    return max(xs, default=-1)


def smallest_by(xs):
    return min(xs, key=lambda x: -x, default=-1)


def sliced(xs):
    return xs[1:]


def sliced_end(xs):
    return xs[:-1]


def reverse(xs):
    return xs[::-1]


def rev(xs):
    return list(reversed(xs))


def mem(xs):
    return 3 in xs


def anyall(xs):
    return any(x > 2 for x in xs) and all(x < 4 for x in xs)


def count_dict(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return len(d)


def last_index(xs):
    d = {x: i for i, x in enumerate(xs)}
    return d.get(2, -1)


def groups(xs):
    from collections import defaultdict
    d = defaultdict(list)
    for i, x in enumerate(xs):
        d[x].append(i)
    return d[1]


def diff(xs):
    return set(xs) - {1, 2}


def inter(xs):
    return set(xs) & {1, 2}


def exc(xs):
    r = []
    for x in xs:
        try:
            if x > 2:
                raise ValueError(x)
            r.append(x)
        except ValueError:
            r.append(0)
    return r


def fin(xs):
    r = []
    try:
        for x in xs:
            if x == 3:
                raise KeyError
            r.append(x)
    except KeyError:
        r.append(99)
    return r


def cont(xs):
    r = []
    for x in xs:
        if x == 1:
            continue
        r.append(x)
    return r


def while_(xs):
    i = 0
    while i < len(xs) and xs[i] < 3:
        i += 1
    return i


def mutate_arg(xs):
    ys = list(xs)
    ys.sort()
    return [x == y for x, y in zip(xs, ys)]


def closure(xs):
    fs = [lambda: x for x in xs]
    return [f() for f in fs]


def gen(xs):
    def g():
        for x in xs:
            if x:
                yield x
    return list(g())


def gen_first(xs):
    return next((x for x in xs if x > 1), -1)


def zipped(xs):
    return [a - b for a, b in zip(xs, xs[1:])]


def flat(xs):
    return [y for x in xs for y in (x, x)]


def idx(xs):
    return xs.index(2) if 2 in xs else -1


def remove_(xs):
    ys = list(xs)
    if 2 in ys:
        ys.remove(2)
    return len(ys)


def pop_(xs):
    ys = list(xs)
    if ys:
        return ys.pop()
    return None


def insert_(xs):
    ys = list(xs)
    ys.insert(0, 7)
    return ys


def extend_(xs):
    ys = [1]
    ys.extend(xs)
    ys += [2]
    return ys


def text(xs):
    return ''.join('a' if x > 1 else 'b' for x in xs)


def setcomp(xs):
    return len({x % 2 for x in xs})


def sum_if(xs):
    return sum(1 for x in xs if x > 1)


def chain_(xs):
    from itertools import chain
    return list(chain(xs, [3], xs))


def product_(xs):
    from itertools import product
    return [a + b for a, b in product(xs, [1, 2])]


def deep(xs):
    return [[y for y in xs if y > x] for x in xs]


def flag(xs):
    seen = False
    for x in xs:
        if x == 2:
            seen = True
    return seen


def two(xs):
    a, b = [], []
    for x in xs:
        (a if x > 1 else b).append(x)
    return a


def swap(xs):
    r = []
    for i in range(len(xs)):
        r.append(xs[len(xs) - 1 - i])
    return r


def keyed(xs):
    return sorted(xs, key=lambda x: -x)


def cmp_lists(xs):
    return sorted(xs) == list(xs)


def tuple_lt(xs):
    return tuple(xs) < (1, 2)


def map_(xs):
    return list(map(lambda x: x + 1, xs))


def filter_(xs):
    return list(filter(lambda x: x > 1, xs))


def dict_over(xs):
    d = {}
    for x in xs:
        d[0] = x
    return d.get(0, -1)


def set_add(xs):
    s = set()
    for x in xs:
        s.add(x)
    return 2 in s


def set_discard(xs):
    s = {0, 1, 2, 3}
    for x in xs:
        s.discard(x)
    return s


def del_key(xs):
    d = {0: 1, 1: 2}
    if xs and xs[0] in d:
        del d[xs[0]]
    return len(d)


def mod_neg(xs):
    return [(-x) % 3 for x in xs] + [(-x) // 2 for x in xs]


def nested_break(xs):
    r = []
    for x in xs:
        for y in [1, 2, 3]:
            if y > x:
                break
            r.append(y)
    return len(r)


def try_ret(xs):
    try:
        return xs[0]
    except IndexError:
        return -1
    finally:
        pass


def walrus(xs):
    return [y for x in xs if (y := x - 1) > 0]


def enumerate_start(xs):
    return [i for i, x in enumerate(xs, 1)]


def star(xs):
    a, *b = [9] + list(xs)
    return b


def multi_zip(xs):
    rows = [(x, x + 1) for x in xs]
    if not rows:
        return 0
    a, b = zip(*rows)
    return list(b)


def string_cat(xs):
    s = ''
    for x in xs:
        s += 'x'
    return s


def frozen(xs):
    return len({frozenset([x, 1]) for x in xs})


def or_default(xs):
    return (xs or [4])[0]


def chained(xs):
    return [x for x in xs if 0 < x <= 2]


def count_(xs):
    return list(xs).count(1)


def sym_range(xs):
    return [i * i for i in range(len(xs))]


def minmax(xs):
    return (max(xs) - min(xs)) if xs else 0


def dict_of_lists(xs):
    d = {x: [] for x in xs}
    if 2 in xs:
        d[2].append(1)
        return len(d[2])
    return -1


def set_elements(xs):
    ls = [{x} for x in xs]
    for s in ls:
        s |= {9}
    return [len(s) for s in ls]


def alias_element(xs):
    a = [0]
    ls = [a for _ in xs]
    a.append(1)
    return [len(l) for l in ls]


def local_then_outer(xs):
    out = []
    for x in xs:
        l = [x]
        out.append(l)
        l.append(1)
    return [len(l) for l in out]


def default_arg(xs):
    def f(x, acc=[]):
        acc.append(x)
        return len(acc)
    return [f(x) for x in xs]


def attr_loop(xs):
    class O:
        pass
    o = O()
    o.n = 0
    for x in xs:
        if x > 1:
            o.n = x
    return o.n


def obj_list(xs):
    class O:
        def __init__(self, x):
            self.x = x
    os = [O(x) for x in xs]
    for o in os:
        o.x = 3
    return [o.x for o in os]


def obj_count(xs):
    class C:
        def __init__(self):
            self.l = []
    c = C()
    for x in xs:
        c.l.append(x)
    return len(c.l)


def late_closure(xs):
    k = 1
    f = lambda x: x + k
    k = 2
    return [f(x) for x in xs]


def mutable_while_iter(xs):
    ys = list(xs)
    r = 0
    for y in ys:
        if y == 1 and len(ys) < 6:
            ys.append(2)
        r += 1
    return r


def dict_iter(xs):
    d = {x: x + 1 for x in xs}
    return sum(v for k, v in d.items())


def dict_len(xs):
    return len({x: 1 for x in xs})


def dict_keys_list(xs):
    return list({x: 1 for x in xs})


def set_len_loop(xs):
    s = set()
    for x in xs:
        s.add(x % 2)
    return len(s)


def ret_in_nested(xs):
    for x in xs:
        for y in xs:
            if x + y == 4:
                return x
    return -1


def for_else(xs):
    for x in xs:
        if x == 2:
            break
    else:
        return 1
    return 0


def sum_dup(xs):
    return sum({x for x in xs})


def bool_int(xs):
    return [x > 1 for x in xs].count(True)


def unpack_pairs(xs):
    return [a for a, b in [(x, 1) for x in xs]]


def zip_short(xs):
    return [a for a, b in zip(xs, [1, 2])]


def shadow(xs):
    x = 5
    ys = [x for x in xs]
    return x


def loop_var_after(xs):
    i = -1
    for i, x in enumerate(xs):
        pass
    return i


def del_then(xs):
    d = {1: 1, 2: 2}
    del d[1]
    return [x for x in xs if x in d]


def reversed_pairs(xs):
    return [y for x, y in reversed(list(enumerate(xs)))]


def cond_append(xs):
    r = []
    if len(xs) > 1:
        r.append(1)
    for x in xs:
        r.append(x)
    return r


def first_bigger(xs):
    r = []
    for x in xs:
        for y in xs:
            if y > x:
                r.append(y)
                break
    return r


def first_bigger_after(xs):
    r = []
    for x in xs:
        b = -1
        for y in xs:
            if y > x:
                b = y
                break
        r.append(b)
    return r


def find(xs, v):
    for i, x in enumerate(xs):
        if x > v:
            return i
    return 9


def finds(xs):
    return [find(xs, x) for x in xs]


def finds_loop(xs):
    r = []
    for x in xs:
        r.append(find(xs, x))
    return r


def finds_flag(xs):
    for x in xs:
        if find(xs, x) == 9:
            return x
    return -1


def all_find(xs):
    return all(find(xs, x) < 9 for x in xs)


def sum_find(xs):
    return sum(find(xs, x) for x in xs)


def set_find(xs):
    return {find(xs, x) for x in xs}


def dict_find(xs):
    return {x: find(xs, x) for x in xs}.get(1)


def sort_find(xs):
    return sorted(xs, key=lambda x: find(xs, x))


def max_find(xs):
    return max((find(xs, x) for x in xs), default=0)


def any_exc(xs):
    def f(x):
        for y in xs:
            if y > x:
                raise ValueError
        return x
    r = []
    for x in xs:
        try:
            r.append(f(x))
        except ValueError:
            pass
    return r


class Obj:
    def __init__(self, x):
        self.x = x
        self.l = []


def objs(xs):
    os = [Obj(x) for x in xs]
    return [o.x for o in os]


def objs_changed(xs):
    os = [Obj(x) for x in xs]
    for o in os:
        o.x = 3
    return [o.x for o in os]


def objs_lists(xs):
    os = [Obj(x) for x in xs]
    for o in os:
        o.l.append(1)
    return [len(o.l) for o in os]


def obj_attr(xs):
    o = Obj(0)
    for x in xs:
        if x > 1:
            o.x = 7
    return o.x


def obj_attr_read(xs):
    o = Obj(0)
    r = []
    for x in xs:
        r.append(o.x)
        o.x = x
    return r


def obj_list_len(xs):
    o = Obj(0)
    for x in xs:
        o.l.append(x)
    return len(o.l)


def obj_shared_list(xs):
    o = Obj(0)
    p = Obj(1)
    p.l = o.l
    for x in xs:
        p.l.append(x)
    return o.l


def obj_in_set(xs):
    o = Obj(1)
    return len({o for x in xs})


def methods(xs):
    d = {1: 'a'}
    return [d.get(x, 'b') for x in xs].count('a') if len(xs) < 2 else 0


def first_match(xs):
    m = [x for x in xs if x > 1]
    return m[0] if m else -1


def sorted_first(xs):
    m = sorted(x for x in xs if x > 1)
    return m[0] if m else -1


def last_elem(xs):
    return xs[-1] if xs else 0


def second(xs):
    try:
        return xs[1]
    except IndexError:
        return -5


def eq_self(xs):
    return xs == list(xs)


def neg_index(xs):
    return xs[-2] if len(xs) > 1 else 0


def rebind(xs):
    ys = xs
    ys = ys + [1]
    return len(xs)


def aug_alias(xs):
    ys = list(xs)
    zs = ys
    zs += [1]
    return len(ys)


def tuple_aug(xs):
    ys = tuple(xs)
    zs = ys
    zs += (1,)
    return len(ys)


def set_alias(xs):
    s = set(xs)
    t = s
    t |= {8}
    return 8 in s


def set_rebind(xs):
    s = set(xs)
    t = s
    t = t | {8}
    return 8 in s


def slice_copy(xs):
    ys = list(xs)
    zs = ys[:]
    zs.append(1)
    return len(ys)


def objs_one(xs):
    os = [Obj(0) for x in xs]
    if len(os) > 1:
        os[0].x = 5
        return os[1].x
    return 0


def dict_two(xs):
    d = {}
    for x in xs:
        d[x] = 1
    for x in xs:
        d[x + 1] = 2
    return d.get(2, 0)


def dict_two_len(xs):
    d = {}
    for x in xs:
        d[x] = 1
    for x in xs:
        d[x + 1] = 2
    return len(d)


def dict_items_sum(xs):
    d = {}
    for x in xs:
        d[x] = 1
    return [v for k, v in d.items()]


def dict_set_keys(xs):
    d = {}
    for x in xs:
        d[x] = 1
    return set(d)


def dict_after(xs):
    d = {x: 0 for x in xs}
    d[2] = 5
    return d.get(2) + len(xs)


def dict_union(xs):
    d = dict({x: 0 for x in xs}, **{})
    return 2 in d


def nested_exit_acc(xs):
    n = 0
    for x in xs:
        for y in xs:
            if y > x:
                break
            n += 1
    return n


def nested_exit_set(xs):
    s = set()
    for x in xs:
        for y in xs:
            if y > x:
                s.add(y)
                break
    return s


def exit_list(xs):
    r = []
    for x in xs:
        if x == 2:
            break
        r.append(x)
    return r


def exit_list_ret(xs):
    r = []
    for x in xs:
        r.append(x)
        if x == 2:
            return r
    return [0]


def break_flag(xs):
    ok = True
    for x in xs:
        if x > 2:
            ok = False
            break
    return ok


def inner_flag(xs):
    r = []
    for x in xs:
        ok = True
        for y in xs:
            if y > x:
                ok = False
        if ok:
            r.append(x)
    return r


def inner_any(xs):
    return [x for x in xs if not any(y > x for y in xs)]


def inner_sorted(xs):
    return [sorted(y for y in xs if y > x) == [] for x in xs].count(True) if not xs else 0


def inner_max(xs):
    return [max(y for y in xs) - x for x in xs]


def inner_first(xs):
    return [[y for y in xs if y >= x][0] for x in xs]


def inner_min_key(xs):
    return [min(xs, key=lambda y: abs(y - x)) for x in xs]


def inner_len(xs):
    return [len({y for y in xs if y == x}) for x in xs]


def inner_index(xs):
    return [xs[i] for i, x in enumerate(xs)]


def inner_mem(xs):
    return [x for x in xs if x + 1 in xs]


def inner_dict(xs):
    d = {x: i for i, x in enumerate(xs)}
    return [d[x] for x in xs] if len(set(xs)) == len(xs) else []


def inner_slice(xs):
    return [y for i, x in enumerate(xs) for y in xs[i + 1:]]


def inner_exc(xs):
    def f(x):
        if x == 0:
            raise KeyError
        return x
    try:
        return [f(x) for x in xs]
    except KeyError:
        return [99]


class Acc:
    def __init__(self):
        self.n, self.some, self.last = 0, False, 7
        self.xs = []

    def total(self):
        return self.n


def attr_sum(xs):
    a = Acc()
    for x in xs:
        a.n += x
        if x > 2:
            a.some = True
    return [a.n, a.some]


def attr_last(xs):
    a = Acc()
    for x in xs:
        a.last = x
    return a.last


def attr_method(xs):
    a = Acc()
    r = []
    for x in xs:
        a.n += 1
        r.append(a.total())
    return r


def attr_alias(xs):
    a = Acc()
    b = a
    for x in xs:
        a.n += x
        b.n += 1
    return a.n


def attr_alias_read(xs):
    a = Acc()
    b = a
    m = 0
    for x in xs:
        a.n += 1
        m = b.n
    return m


def attr_two(xs):
    a, b = Acc(), Acc()
    for x in xs:
        a.n += 1
        b.n += x
    return [a.n, b.n, a.last]


def attr_break(xs):
    a = Acc()
    for x in xs:
        a.n += 1
        if x == 2:
            break
    else:
        a.last = 1
    return [a.n, a.last]


def attr_flag_while_raise(xs):
    a = Acc()
    try:
        for x in xs:
            a.some = True
            if x == 2:
                raise ValueError
    except ValueError:
        return 1 if a.some else 0
    return 2 if a.some else 3


def attr_rebound(xs):
    a = Acc()
    for x in xs:
        a.n += 1
        a = Acc()
    return a.n


def attr_concat(xs):
    a = Acc()
    for x in xs:
        a.xs = a.xs + [x]
    return a.xs


def enum_filter(xs):
    return [i for i, x in enumerate([x for x in xs if x > 1])]


def enum_filter_val(xs):
    return [x + i for i, x in enumerate(x for x in xs if x > 1)]


def text_plain(xs):
    r = ''
    for x in xs:
        r += 'a%d,' % x
    return r


def text_cond(xs):
    r = 'start '
    for x in xs:
        if x > 1:
            r += 'big '
        elif x == 1:
            continue
        r += str(x)
    return r


def text_two(xs):
    r = ''
    for x in xs:
        r += str(x)
        r += ';'
    return r + '!'


def text_prepend(xs):
    r = ''
    for x in xs:
        r = str(x) + r
    return r


def text_reset(xs):
    r = ''
    for x in xs:
        r += str(x)
        if x == 2:
            r = 'two'
    return r


def text_read(xs):
    r = ''
    for x in xs:
        if r:
            r += ','
        r += str(x)
    return r


def text_break(xs):
    r = ''
    for x in xs:
        if x == 2:
            break
        r += str(x)
    return r


def text_return(xs):
    r = ''
    for x in xs:
        r += str(x)
        if x == 2:
            return r
    return r + 'end'


def text_double(xs):
    r = ''
    for x in xs:
        r += r + str(x)
    return r


def text_alias(xs):
    r, t = '', ''
    for x in xs:
        r += str(x)
        t = r
    return t


def text_other(xs):
    r, t = '', 'k'
    for x in xs:
        r += t
        t = 'z'
    return r


def text_mult(xs):
    r = []
    for x in xs:
        s = ''
        for y in xs:
            s += str(x)
        r.append(len(s))
    return r


def text_set(xs):
    r = ''
    for x in set(xs):
        r += 'a'
    return r


def text_flag(xs):
    t = 'no'
    for x in xs:
        if x == 2:
            t = 'yes'
    return t


def text_len(xs):
    r = ''
    for x in xs:
        r += 'ab'
    return len(r)
