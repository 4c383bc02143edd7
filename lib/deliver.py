"""Concurrent delivery programs: one source, one buffer, several consumers, a generated schedule."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads, events
from harness import HarnessError, Violation
from streams import OTHER_FAULTS, Book, mk_source_class

HOWS = ['iter', 'loops', 'next', 'blocking', 'poll', 'readn', 'readn_blocking', 'iter_n', 'range']
BIG = 10 ** 6


class Consumer:
    """Consumes a reader until the end of the stream in one of several ways a user would."""

    def __init__(self, book, reader, how, n, limit, nap, final):
        self.final = final  # nothing comes in once the stream is stopped
        self.book, self.r, self.how, self.n = book, reader, how, n
        self.limit = limit  # more items than this is a violation (never loop forever)
        self.nap = nap
        self.got = []
        self.early = None
        self.end_stopped = None

    def take(self, x):
        if type(x) is list:
            if not x and self.how != 'range':
                raise Violation(f'an empty list was returned by {self.how}')
            self.got += [self.book.pos(v) for v in x]
        else:
            self.got.append(self.book.pos(x))
        if len(self.got) > self.limit:
            raise Violation(f'{self.how} delivered more items than there are: {self.got[:40]}')

    def ended(self):
        if not self.r.is_stopped:
            raise Violation(f'{self.how} ended although the stream is running (after {self.got})')
        self.end_stopped = True

    def __call__(self):
        r, how = self.r, self.how
        if how in ('iter', 'iter_n'):
            for x in r:
                if x is None:
                    raise Violation('iterating a reader yielded None')
                self.take(x)
            self.ended()
            return
        if how == 'loops':  # loops that are left and begun again, and reads in between
            while True:
                for i, x in enumerate(r):
                    self.take(x)
                    if i + 1 >= self.n:
                        break
                else:
                    return self.ended()
                x = r.read(ignore_no_item_found=True)
                if x is not None:
                    self.take(x)
        if how in ('blocking', 'readn_blocking'):
            while True:
                x = r.read(blocking=True) if how == 'blocking' else r.read(n=self.n, blocking=True)
                if x is None:
                    return self.ended()
                self.take(x)
        if how == 'next':
            while True:
                try:
                    x = next(r)
                except StopIteration:
                    self.ended()
                    for _ in range(2 if self.final else 0):
                        try:
                            x = next(r)
                        except StopIteration:
                            continue
                        raise Violation(f'next() returned {x!r} after StopIteration')
                    return
                if x is None:
                    V.vsleep(self.nap)
                else:
                    self.take(x)
        while True:  # polling: what is read after the stream was seen stopped is all there is
            stopped = r.is_stopped
            if how == 'poll':
                x = r.read(ignore_no_item_found=True)
            elif how == 'readn':
                try:
                    x = r.read(n=self.n)
                except ValueError:
                    x = None
            elif how == 'range':
                x = r.range(
                    self.book.key(-50),
                    self.book.key(BIG),
                    only_new_items=True,
                    ignore_no_item_found=True,
                )
            else:
                raise HarnessError(how)
            if x is not None:
                self.take(x)
            elif stopped:
                return
            else:
                V.vsleep(self.nap)


@st.composite
def consumers(draw, hows=HOWS):
    how = draw(st.sampled_from(hows))
    return {
        'how': how,
        'n': draw(st.integers(2, 4)),
        'delay': draw(st.sampled_from([0, 0, 0, 0.1, 0.6, 3])),
        'nap': draw(st.sampled_from([0.03, 0.1, 0.3])),
    }


@st.composite
def delivery_cases(
    draw, tier, regimes=('wide', 'paced', 'lossy'), hows=HOWS, ends=('fault', 'stop'), max_items=None, hot=0.25
):
    # hot: nobody rests for longer than a few dozen lines of code take, so that the steps of readers and
    # source interleave finely all the time
    hot = draw(st.integers(0, 99)) < hot * 100
    if hot:
        regimes = [r for r in regimes if r != 'paced']
        max_items = min(max_items or 5, 5)
    n = draw(
        gen.weighted(
            (8, st.integers(1, max_items or 9)), (0 if hot else 1, st.integers(10, 25 if tier == 'quick' else 120))
        )
    )
    bulk = not hot and not max_items and draw(st.integers(0, 59)) == 31  # many items at once
    if bulk:
        n = draw(st.integers(60, 400))
    regime = draw(st.sampled_from(regimes)) if not bulk else 'wide'
    if regime == 'wide':
        maxlen = draw(st.sampled_from([None, n, n + 1, 100 + n]))
    else:
        maxlen = draw(gen.weighted((4, st.integers(1, max(1, min(n, 5)))), (1, st.integers(1, max(1, min(n, 14))))))
    script = []
    gap = draw(st.sampled_from([1, 4]))
    p = draw(st.integers(-3, 3))
    burst = 0
    if regime == 'paced':
        script.append(['s', 1.0])
    for i in range(0 if bulk else n):
        if regime == 'paced' and burst >= maxlen:
            script.append(['s', 0.8])
            burst = 0
        k = draw(st.integers(0, 9))
        if k == 0:
            script.append(['n'])
        elif k in (2, 3):
            script.append(['y', draw(st.integers(1, 40))])
        elif k == 1 and regime != 'paced':
            script.append(['s', draw(st.sampled_from([2e-5, 1e-4, 5e-4] if hot else [0.0, 0.05, 0.1, 0.7, 0.7, 15.0]))])
        script.append(['i', p])
        burst += 1
        p += draw(st.integers(1, gap))
    if bulk:
        script += [['i', p + i * gap] for i in range(n)]
    cons = draw(st.lists(consumers(hows), min_size=2 if hot else 1, max_size=4 if hot else 3))
    if regime == 'paced':
        for c in cons:
            c['delay'] = 0
    if hot:
        for c in cons:
            c['delay'] = min(c['delay'], 0.0005)
            c['nap'] = 2e-5
    for c in cons:
        # the size of the chunks is either a default of the reader or an argument
        c['cfg'] = {'read_size': c['n']} if c['how'] == 'iter_n' else draw(gen.reader_cfgs(peek=False, plain=0.7))
        c['cfg'].pop('strict_n', None)
        if c['how'] not in ('iter_n', 'next', 'iter', 'loops', 'blocking', 'poll'):
            c['cfg'].pop('read_size', None)
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(gen.kinds),
        'regime': regime,
        'maxlen': maxlen,
        'script': script,
        'end': draw(st.sampled_from(['fault', 'fault', 'stop_mid'] if hot else list(ends))),
        'hot': hot,
        'again': draw(st.sampled_from([None, 'clear', 'set'])),
        'fault': draw(st.sampled_from(['Fault', 'StopIteration', 'OSError', 'KeyboardInterrupt', *OTHER_FAULTS])),
        'stop_after': draw(
            st.sampled_from([0.0, 1e-4, 3e-4, 1e-3] if hot else [0.0, 0.0, 0.01, 0.2, 1.0])
        ),
        'sleep': 2e-4 if hot else draw(st.sampled_from([0.05, 0.2])),
        'consumers': cons,
        'schedule': dict(draw(gen.schedules()), gran='sync') if bulk else draw(gen.schedules()),
    }


def run_delivery(case, rec):
    """Every consumer gets what it has to get; see C01 and C02 for the reading of the result."""
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    produced_all = [a[1] for a in case['script'] if a[0] == 'i']
    maxlen = case['maxlen']
    regime = case['regime']
    sched = V.Scheduler(case['schedule'], max_steps=400_000, max_time=500.0)
    out = {}

    def main():
        fault_end = case['end'] == 'fault'
        src = mk_source_class()(
            book, [case['script']], sleep=case['sleep'], end=case['fault'] if fault_end else None
        )
        buf = StreamBuffer(src, maxlen=maxlen)
        buf.start()
        cons = []
        th = Threads()

        def launch(spec):
            if spec['delay']:
                V.vsleep(spec['delay'])
            r = buf.mk_reader(**spec['cfg'])
            r.set_sleep_time_on_iter_none(spec['nap'])
            c = Consumer(book, r, spec['how'], spec['n'], len(produced_all), spec['nap'], fault_end)
            cons.append((c, spec))
            c()

        for i, spec in enumerate(case['consumers']):
            th.go(launch, spec, name=f'consumer{i}-{spec["how"]}')
        must = None
        if not fault_end:
            if case['end'] == 'stop':
                while not src.idle:
                    V.vsleep(0.5)
                V.vsleep(1.0)  # everything was produced
            else:
                V.vsleep(case['stop_after'])
            # what certainly is in the buffer now: everything read before the last read began
            done = events(src, 'read_end')
            begun = events(src, 'read')
            appended = done[: len(begun) - 1] if len(begun) > len(done) else done[:-1]
            must = [e[3] for e in appended if e[3] is not None]
            buf.stop()
        th.join()
        V.vsleep(20.0)
        produced = src.produced[0]
        if fault_end or case['end'] == 'stop':
            if produced != produced_all:
                raise Violation(f'the source was read {len(produced)} of {len(produced_all)} items only')
            must = produced
        window = produced if maxlen is None else produced[-maxlen:]
        for c, spec in cons:
            who = f'consumer ({spec["how"]}, defaults {spec["cfg"]})'
            if any(b <= a for a, b in zip(c.got, c.got[1:])):
                raise Violation(f'{who} got items twice or out of order: {c.got}')
            if not set(c.got) <= set(produced):
                raise Violation(f'{who} got {c.got}, produced were {produced}')
            if regime in ('wide', 'paced'):
                if c.got[: len(must)] != list(must) or c.got != produced[: len(c.got)]:
                    raise Violation(f'{who} got {c.got}, expected {must} (maxlen {maxlen}, {regime})')
            else:
                keep = [p for p in (must if maxlen is None else must[-maxlen:]) if p in window]
                if [p for p in c.got if p in keep] != keep:
                    raise Violation(f'{who} got {c.got} but {keep} was never dropped')
            out['delivered'] = out.get('delivered', 0) + len(c.got)
        # whoever comes later still sees what is buffered
        late = buf.mk_reader()
        items = list(late)
        got = [book.pos(x) for x in items]
        expect = window
        if got != list(expect):
            raise Violation(f'a reader made after the end got {got}, buffered is {expect}')
        # and whoever goes back gets it again
        for c, spec in cons if case.get('again') and items else ():
            back = None
            if case['again'] == 'clear':
                del c.r.last_item
            else:
                back = len(items) // 2
                c.r.last_item = items[back]
            again = Consumer(book, c.r, spec['how'], spec['n'], len(window), spec['nap'], True)
            again()
            expect = list(window if back is None else window[back + 1 :])
            if again.got != expect:
                raise Violation(
                    f'consumer ({spec["how"]}, defaults {spec["cfg"]}) set back after the end got {again.got}, '
                    f'buffered is {expect}'
                )

    sched.run(main)
    rec.label('regime-' + regime, 'end-' + case['end'], 'hot' if case['hot'] else 'paused', *{'how-' + c['how'] for c in case['consumers']})
    if sched.preemptions:
        rec.label('preempted')
    rec.nontrivial = out.get('delivered', 0) >= 2 and sched.switches >= 4
