"""The automatic window: always exactly the most recent maxlen items."""
from hypothesis import strategies as st

import gen
from streams import run_sequential

ID = 'C07'
RULE = (
    'A case is a sequence of bursts from the source interleaved with reader activity, over window sizes from 1 to '
    'unbounded and several ways to construct the buffer; after every burst the whole content is compared with the '
    'last maxlen items produced. Non-trivial if items were dropped, or at least 20 were kept by an unbounded window.'
)
CASES = {'quick': 2000, 'thorough': 60000}


@st.composite
def strategy(draw, tier):
    ops = gen.weighted((3, gen.read_ops()), (2, gen.tail_ops), (1, gen.head_ops), (1, gen.next_ops))
    big = 130 if tier == 'quick' else 1200
    gap = draw(st.sampled_from([1, 3]))
    feed = gen.weighted(
        (5, st.lists(st.integers(1, gap), min_size=1, max_size=9).map(lambda g: ['feed', g])),
        (2, st.tuples(st.integers(1, 40), st.integers(1, gap)).map(lambda t: ['feedn', *t])),
        (1, st.tuples(st.integers(41, big), st.integers(1, gap)).map(lambda t: ['feedn', *t])),
    )
    maxlen = draw(
        gen.weighted((4, st.integers(1, 7)), (3, st.integers(1, 60)), (2, st.just(100)), (1, st.integers(61, big)), (2, st.none()))
    )
    body = draw(
        st.lists(
            gen.weighted(
                (4, feed),
                (1, gen.reader_cfgs().map(lambda c: ['mk', c])),
                (2, st.tuples(st.integers(0, 2), ops).map(lambda t: ['op', *t])),
            ),
            min_size=2,
            max_size=14 if tier == 'quick' else 40,
        )
    )
    how = draw(st.sampled_from(['kw', 'kw', 'helper', 'helper_kw', 'helper_default', 'default']))
    long = draw(st.integers(0, 199))
    if long == 117:
        maxlen = draw(st.sampled_from([None, None, 10_000, 4096]))
        body = [['feedn', draw(st.integers(10_001, 10_300)), gap]] + body[:3]
    elif 40 <= long < 45:
        maxlen = draw(st.sampled_from([None, None, 1000, 1024]))
        body = [['feedn', draw(st.integers(1001, 2300)), gap]] + body[:4]
    elif how == 'default' and long < 130:
        maxlen = 100
        body = [['feedn', draw(st.integers(95, 110)), gap]] + body[:8]
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(gen.kinds),
        'maxlen': maxlen,
        'auto_drop': True,
        'how': how,
        'first': draw(st.sampled_from([0, -7])),
        'steps': body + ([['stop']] if draw(gen.bools) else []),
    }


def big_cases(rnd, tier):
    return gen.big_seq_cases(rnd, tier, ['read', 'tail', 'head', 'next'], hows=('kw', 'helper', 'helper_kw', 'helper_default'))


def run(case, rec):
    s = run_sequential(case, rec)
    rec.nontrivial = s['dropped'] > 0 or (case['maxlen'] is None and s['fed'] >= 20)
    for k, v in s.items():
        if v:
            rec.label(k)
    rec.label('unbounded' if case['maxlen'] is None else 'bounded')
