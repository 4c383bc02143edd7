"""Hypothesis strategies shared by the property modules. Every generated case is plain JSON."""
from hypothesis import strategies as st

from streams import KEYS, ITEMS, FAULTS

ktypes = st.sampled_from(sorted(KEYS))
kinds = st.sampled_from(sorted(ITEMS))
bools = st.booleans()


def weighted(*pairs):
    """weighted((3, strategy), (1, strategy), ...)"""
    pool = []
    for w, s in pairs:
        pool.extend([s] * w)
    return st.sampled_from(range(len(pool))).flatmap(lambda i: pool[i])


gaps = weighted((3, st.integers(0, 6)), (3, st.integers(0, 60)), (2, st.integers(0, 500)))


# somebody sets the clock of the computer: [moment, seconds forward or back]
walls = st.lists(
    st.tuples(
        st.one_of(st.sampled_from([0, 0.05, 0.5, 2, 10, 50]), st.integers(0, 4000).map(lambda i: i / 1000)),
        st.sampled_from([-86_400, -3600, -7, -0.5, 7, 3600, 1e6]),
    ).map(list),
    min_size=1,
    max_size=3,
)


@st.composite
def schedules(draw, line=0.75, max_preempt=14):
    """A schedule of vworld.Scheduler"""
    out = draw(_schedules(line, max_preempt))
    if draw(st.integers(0, 7)) == 5:
        out['wall'] = draw(walls)
    return out


@st.composite
def _schedules(draw, line, max_preempt):
    gran = 'line' if draw(st.integers(0, 99)) < line * 100 else 'sync'
    fine = draw(st.integers(0, 9)) == 4
    if draw(st.integers(0, 2)):
        out = {'gran': gran, 'preempt': [], 'picks': draw(st.lists(st.integers(0, 3), max_size=4))}
        out['walk'] = [draw(st.integers(0, 2**32)), draw(st.sampled_from([2, 4, 8, 20, 60]))]
        if fine:  # between any two byte code instructions
            out['gran'] = 'instr'
            out['walk'][1] *= 4
        return out
    n = draw(st.integers(0, max_preempt))
    return {
        'gran': gran,
        'preempt': [[draw(gaps), draw(st.integers(0, 3))] for _ in range(n)],
        'picks': draw(st.lists(st.integers(0, 3), max_size=8)),
    }


opt_bool = st.sampled_from([None, False, True])
sizes = weighted((4, st.integers(1, 4)), (2, st.integers(1, 12)), (1, st.integers(1, 400)))


def _opt(**kw):
    return {k: v for k, v in kw.items() if v is not None}


@st.composite
def reader_cfgs(draw, peek=True, plain=0.5):
    if draw(st.integers(0, 99)) < plain * 100:
        return {}
    return _opt(
        read_size=draw(st.sampled_from([None, 1, 2, 3, 5])),
        peek=draw(opt_bool) if peek else None,
        strict_n=draw(opt_bool),
        ignore_no_item_found=draw(opt_bool),
    )


@st.composite
def read_ops(draw, blocking=False):
    return [
        'read',
        _opt(
            n=draw(weighted((2, st.none()), (3, sizes))),
            peek=draw(opt_bool),
            ignore_no_item_found=draw(opt_bool),
            strict_n=draw(opt_bool),
            blocking=draw(st.sampled_from([None, None, None, False, True])) if blocking else None,
        ),
    ]


@st.composite
def range_ops(draw, positions):
    a = draw(positions)
    b = draw(weighted((4, st.integers(-3, 30).map(lambda d: a + d)), (2, positions)))
    return [
        'range',
        _opt(
            start=a,
            stop=b,
            step=draw(st.sampled_from([None, None, 1, 2, 3, 7])),
            peek=draw(opt_bool),
            ignore_no_item_found=draw(opt_bool),
            only_new_items=draw(opt_bool),
            start_le=draw(opt_bool),
            stop_ge=draw(opt_bool),
        ),
    ]


tail_ops = st.tuples(opt_bool, opt_bool, opt_bool).map(
    lambda t: ['tail', _opt(peek=t[0], ignore_no_item_found=t[1], only_new_items=t[2])]
)
head_ops = opt_bool.map(lambda p: ['head', _opt(peek=p)])
next_ops = st.just(['next'])
del_ops = st.just(['del'])
seek_ops = st.integers(0, 60).map(lambda i: ['seek', i])
iter_ops = st.sampled_from([1, 2, 3, 4, 6, 1000]).map(lambda k: ['iter', {}, k])
dnext_ops = st.tuples(sizes, opt_bool, opt_bool, opt_bool).map(
    lambda t: ['dnext', _opt(n=t[0], peek=t[1], ignore_no_item_found=t[2], strict_n=t[3])]
)


@st.composite
def seq_cases(draw, op_strategy, *, tier, auto_drop=True, stop=True, maxlens=None, cfgs=None, max_steps=None, feed_max=8):
    """A sequential history (streams.run_sequential) dominated by the given ops."""
    maxlen = draw(
        maxlens
        if maxlens is not None
        else weighted((2, st.none()), (4, st.integers(1, 6)), (3, st.integers(1, 40)), (1, st.integers(100, 1000)))
    )
    gap = draw(st.sampled_from([1, 3]))
    feed = st.lists(st.integers(1, gap), min_size=1, max_size=feed_max).map(lambda g: ['feed', g])
    big = st.tuples(st.integers(5, 60 if tier == 'quick' else 700), st.integers(1, gap)).map(
        lambda t: ['feedn', t[0], t[1]]
    )
    if cfgs is None:
        cfgs = reader_cfgs()
    mk = cfgs.map(lambda c: ['mk', c])
    op = st.tuples(st.integers(0, 3), op_strategy, st.integers(0, 15)).map(
        lambda t: ['op', t[0], t[1], True] if t[2] == 7 else ['op', t[0], t[1]]
    )
    one = lambda s: s.map(lambda x: [x])
    again = st.just(['again'])
    # the same call again, at once or after something has happened
    parts = [(3, one(feed)), (1, one(mk)), (10, one(op)), (1, one(again)), (1, st.tuples(op, feed, again).map(list))]
    if not auto_drop:
        drop = weighted((3, st.just(1)), (3, st.integers(1, 6)), (1, st.integers(1, 50))).map(lambda n: ['drop', n])
        parts += [(3, one(drop)), (2, st.tuples(op, drop, again).map(list))]
    body = st.lists(weighted(*parts), min_size=3, max_size=max_steps or (25 if tier == 'quick' else 60)).map(
        lambda groups: [s for g in groups for s in g]
    )
    steps = [draw(mk)]
    many = draw(st.integers(0, 29))
    if many < 6:
        steps.append(draw(big))
    elif many == 7:
        steps.append(draw(st.tuples(st.just('feedn'), st.integers(61, 500), st.just(gap))))
    steps += draw(body)
    if stop and draw(st.integers(0, 2)) == 0:
        steps.append(['stop'])
        # also: to the end, back, and on from there
        back = st.tuples(st.integers(0, 3), weighted((1, del_ops), (2, seek_ops)), op_strategy).map(
            lambda t: [['op', t[0], ['iter', {}, 1000]], ['op', t[0], t[1]], ['op', t[0], t[2]], ['op', t[0], ['next']]]
        )
        steps += draw(
            st.lists(weighted((6, one(op)), (1, one(mk)), (1, back)), min_size=1, max_size=6).map(
                lambda groups: [s for g in groups for s in g]
            )
        )
    return {
        'ktype': draw(ktypes),
        'kind': draw(kinds),
        'maxlen': maxlen,
        'auto_drop': auto_drop,
        'first': draw(st.sampled_from([0, 0, -5, 17])),
        'spy': draw(st.sampled_from(['new', 'kept'])),
        'steps': steps,
    }


# ---- big ones: not from Hypothesis, which makes small ones --------------------------------------
EDGES = [100, 101, 127, 128, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5000]
FAR = [9999, 10_000, 10_001, 12_000, 16_384]


def big_seq_cases(rnd, tier, names, auto_drop=True, number=3, hows=('kw',)):
    """Sequential histories over windows of hundreds or thousands of items, sizes around round numbers."""
    out = []
    for i in range(number if tier == 'quick' else 4 * number):
        far = i % 3 == 1
        edge = rnd.choice(FAR if far else EDGES)
        maxlen = rnd.choice([None, edge, edge, edge + 1, 2 * edge, 20_000])
        gap = rnd.choice([1, 1, 3])
        first = rnd.choice([0, -5, 17])
        fed = [0]

        def feed(n):
            fed[0] += n
            return ['feedn', n, gap]

        def near(n):
            return max(1, n + rnd.choice([-1, 0, 0, 0, 1, 2, 7]))

        def place():
            k = rnd.randrange(6)
            at = rnd.randrange(fed[0] + 1) if k < 3 else [0, fed[0] - edge, fed[0]][k - 3] + rnd.randint(-2, 2)
            return first + at * gap + rnd.randint(-1, 1)

        def op():
            name = rnd.choice(names)
            flag = lambda: rnd.random() < 0.3
            if name == 'read':
                return ['read', _opt(n=rnd.choice([None, 1, 2, near(edge), near(fed[0]), rnd.randint(1, fed[0] + 2)]),
                                     peek=flag(), ignore_no_item_found=flag(), strict_n=flag())]
            if name == 'dnext':
                return ['dnext', _opt(n=rnd.choice([1, near(edge), rnd.randint(1, fed[0])]), peek=flag(), ignore_no_item_found=True)]
            if name == 'range':
                a = place()
                b = rnd.choice([place(), a + gap * near(edge), a + rnd.randint(0, 9)])
                return ['range', _opt(start=a, stop=b, step=rnd.choice([None, None, 1, 2, 7, 100, edge]), peek=flag(),
                                      ignore_no_item_found=flag(), only_new_items=flag(), start_le=flag(), stop_ge=flag())]
            if name == 'tail':
                return ['tail', _opt(peek=flag(), only_new_items=flag(), ignore_no_item_found=flag())]
            if name == 'head':
                return ['head', _opt(peek=flag())]
            if name == 'iter':
                return ['iter', {}, rnd.choice([3, 40, near(edge) if edge < 2000 else 300])]
            if name == 'seek':
                return ['seek', rnd.randrange(61)]
            return [name]

        steps = [['mk', {}], ['mk', _opt(read_size=rnd.choice([1, 3, near(edge)]), peek=rnd.choice([None, True]))]]
        if rnd.random() < 0.7:
            steps.append(feed(near(edge)))
        else:
            steps += [feed(max(1, edge // 2)), ['op', 0, op()], feed(max(1, near(edge) - edge // 2))]
        for _ in range(8 if far else 12):
            k = rnd.randrange(10)
            if k == 0:
                steps.append(feed(rnd.choice([1, 2, near(edge)]) if not far else rnd.choice([1, 2, 500])))
            elif k == 1 and not auto_drop:
                steps.append(['drop', rnd.choice([1, 2, near(edge // 2), near(edge)])])
            else:
                steps.append(['op', rnd.randrange(2), op()])
        if rnd.random() < 0.3:
            steps += [['stop']] + [['op', rnd.randrange(2), op()] for _ in range(2)]
        out.append({
            'ktype': rnd.choice(sorted(KEYS)), 'kind': rnd.choice(sorted(ITEMS)), 'maxlen': maxlen, 'auto_drop': auto_drop,
            'first': first, 'spy': rnd.choice(['new', 'kept']), 'how': rnd.choice(hows), 'steps': steps,
        })
    return out
