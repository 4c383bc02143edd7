"""Several streams in one program: each behaves as if it were alone; streams may feed streams."""
import importlib

from hypothesis import strategies as st

import gen
import streams
import vworld as V
from conc import Threads
from deliver import Consumer, consumers
from harness import Rec, Violation
from streams import Book, mk_source_class

ID = 'C32'
RULE = (
    'A case is two or three complete histories, each with its own streams, readers and model (those of C01, C03-C07, C12, '
    'C14, C16-C20, C24, C27, C28, twins of one history, or a chain of streams that read from each other), that share their '
    'source classes and run one after the other or interleaved by a generated schedule. Non-trivial if at least two of them '
    'are non-trivial by the rule of their own check, or a chain of streams delivered items.'
)
CASES = {'quick': 3600, 'thorough': 80000}

SEQ = ['C03', 'C04', 'C05', 'C06', 'C07']
FINE = ['C01', 'C12', 'C14']  # with threads of their own: interleaved at every line
PARTS = SEQ + ['C16', 'C17', 'C18', 'C19', 'C20', 'C24', 'C27', 'C28']
STAMPED = {'C19', 'C20', 'C24', 'C28'}  # with sources that tell the time: compared with a clock nobody sets


def prop(name):
    return importlib.import_module(f'props.{name.lower()}')


@st.composite
def chains(draw):
    n = draw(st.integers(1, 8))
    script = []
    for p in range(n):
        k = draw(st.integers(0, 5))
        if k == 0:
            script.append(['n'])
        elif k == 1:
            script.append(['s', draw(st.sampled_from([0.0, 0.3, 2.0]))])
        script.append(['i', p])
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(gen.kinds),
        'script': script,
        'links': draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        'how': st.sampled_from(['starts', 'starts', 'with', 'given']),
                        'reading': st.sampled_from(['poll', 'next', 'blocking']),
                        'maxlen': st.sampled_from([None, 8, 100]),
                    }
                ),
                min_size=1,
                max_size=3,
            )
        ),
        'maxlen': draw(st.sampled_from([None, 8, 100])),
        'rounds': draw(st.integers(1, 2)),
        'consumers': draw(st.lists(consumers(['iter', 'next', 'poll', 'blocking', 'loops']), min_size=1, max_size=2)),
    }


@st.composite
def part(draw, names, tier):
    name = draw(st.sampled_from(names))
    return [name, draw(chains() if name == 'chain' else prop(name).strategy('quick'))]


@st.composite
def strategy(draw, tier):
    fine = draw(st.integers(0, 4)) == 0
    names = FINE if fine else PARTS * 2 + ['C01', 'C14', 'chain', 'chain', 'chain']
    first = draw(part(names, tier))
    parts = [first]
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        how = draw(st.integers(0, 5))
        parts.append(first if how == 0 else draw(part(names, tier)))
        if how in (1, 2, 3):  # the same kinds of keys and items, so that mix-ups find something
            for k in ('ktype', 'kind'):
                if k in first[1] and k in parts[-1][1] and first[0] in SEQ and parts[-1][0] in SEQ:
                    parts[-1][1][k] = first[1][k]
    if fine:
        schedule = draw(gen.schedules(line=1.0))
    else:
        schedule = draw(gen.schedules(line=0.3))
    if any(p[0] in STAMPED for p in parts):
        schedule.pop('wall', None)
    return {
        'parts': parts,
        'how': 'parallel' if fine else draw(st.sampled_from(['parallel', 'parallel', 'parallel', 'sequence'])),
        'schedule': schedule,
    }


def run_chain(case, rec):
    """A source feeds a stream, whose reader is the source of the next stream, and so on."""
    import stream2py

    book = Book(case['ktype'], case['kind'])
    total = len([a for a in case['script'] if a[0] == 'i'])

    class Link(stream2py.SourceReader):
        def __init__(self, up, how, reading):
            self.up, self.how, self.reading, self.reader, self.opened = up, how, reading, None, 0

        def open(self):
            self.opened += 1
            if self.how == 'starts':
                self.up.start()
            elif self.how == 'with':
                self.up.__enter__()
            self.reader = self.up.mk_reader()
            self.reader.set_sleep_time_on_iter_none(0.05)

        def read(self):
            if self.reading == 'next':
                try:
                    return next(self.reader)
                except StopIteration:
                    return None
            return self.reader.read(ignore_no_item_found=True)

        def close(self):
            if self.how == 'starts':
                self.up.stop()
            elif self.how == 'with':
                self.up.__exit__(None, None, None)

        def key(self, data):
            return book.keyfn(data)

        sleep_time_on_read_none_s = property(lambda self: 0.1)

    src = mk_source_class()(book, [case['script'], case['script']], sleep=0.1)
    buf = stream2py.StreamBuffer(src, maxlen=case['links'][0]['maxlen'])
    bufs, given = [buf], []
    for link, nxt in zip(case['links'], case['links'][1:] + [case]):
        if link['how'] == 'given':
            given.append(buf)
        buf = stream2py.StreamBuffer(Link(buf, link['how'], link['reading']), maxlen=nxt['maxlen'])
        bufs.append(buf)
    for rnd in range(case['rounds']):
        for b in given:
            b.start()
        buf.start()
        th = Threads()
        cons = []
        for spec in case['consumers']:
            r = buf.mk_reader()
            r.set_sleep_time_on_iter_none(spec['nap'])
            c = Consumer(book, r, spec['how'], spec['n'], total, spec['nap'], False)
            cons.append((spec, c))
            th.go(c, name='consumer')
        V.vsleep(30.0)
        if not all(b.is_running for b in bufs):
            raise Violation(f'streams that feed each other run: {[b.is_running for b in bufs]}')
        buf.stop()
        th.join()
        V.vsleep(5.0 * len(bufs))
        for b in given:
            b.stop()
        V.vsleep(5.0)
        if any(b.is_running for b in bufs):
            raise Violation('a stream is running after the chain was stopped')
        for spec, c in cons:
            if c.got != list(range(total)):
                raise Violation(f'round {rnd}: {total} items went through a chain of {len(bufs)} streams, {spec["how"]} got {c.got}')
        if src.session != rnd or [b.source_reader.opened for b in bufs[1:]] != [rnd + 1] * (len(bufs) - 1):
            raise Violation('the sources of a chain of streams were not opened once per round')
    rec.nontrivial = total > 0


def run_part(name, sub, rec):
    run_chain(sub, rec) if name == 'chain' else prop(name).run(sub, rec)


def run(case, rec):
    recs = [Rec() for _ in case['parts']]

    def main():
        if case['how'] == 'sequence':
            for (name, sub), r in zip(case['parts'], recs):
                run_part(name, sub, r)
            return
        th = Threads()
        for (name, sub), r in zip(case['parts'], recs):
            th.go(run_part, name, sub, r, name=name)
        th.join()

    streams.SHARED_CLASSES = {}
    try:
        V.Scheduler(case['schedule'], max_steps=6_000_000, max_time=1e6).run(main)
    finally:
        streams.SHARED_CLASSES = None
    rec.nontrivial = sum(r.nontrivial for r in recs) >= 2 or any(n == 'chain' and r.nontrivial for (n, _), r in zip(case['parts'], recs))
    rec.label(case['how'], *[name for name, _ in case['parts']])
    rec.label('twins' if any(p == q for i, p in enumerate(case['parts']) for q in case['parts'][:i]) else 'different')
