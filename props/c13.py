"""No deadlock: every call returns, the stream keeps flowing, stop ends everything."""
from collections import deque

from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import Violation
from streams import Book, call_reader, mk_source_class

ID = 'C13'
RULE = (
    'A case is a source script, 1-4 threads with generated sequences over the whole reader and buffer interface '
    '(also calls that raise, such as incomparable bounds), a main program that may drop, restart and finally stops, '
    'and a thread schedule. Non-trivial if at least 4 calls were made and at least 4 thread switches happened.'
)
CASES = {'quick': 4000, 'thorough': 120000}


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 12))
    script = []
    for p in range(n):
        k = draw(st.integers(0, 9))
        if k <= 2:
            script.append(['y', draw(st.integers(1, 50))])
        elif k == 3:
            script.append(['s', 1e-4])
        elif k == 4:
            script.append(['n'])
        elif k == 5 and draw(st.integers(0, 5)) == 0:
            script.append(['c', 'stop'])  # a source may end its stream itself
        script.append(['i', p])
    ops = gen.weighted(
        (4, gen.read_ops()),
        (2, gen.next_ops),
        (5, gen.range_ops(st.integers(-2, n + 2))),
        (3, gen.tail_ops),
        (2, gen.head_ops),
        (1, gen.seek_ops),
        (1, gen.del_ops),
        (2, st.sampled_from([['block'], ['block_n'], ['iter', 1], ['iter', 3], ['drain']])),
        (2, st.sampled_from([['mk'], ['is_running'], ['info'], ['attach'], ['nap'], ['bnext'], ['same']])),
        (2, st.sampled_from([['bad_range'], ['bad_range_new'], ['bad_read'], ['bad_seek'], ['bad_drop'], ['bad_step'], ['bad_mk'], ['bad_attach']])),
    )
    auto = draw(st.integers(0, 3)) > 0
    return {
        'ktype': draw(gen.weighted((1, gen.ktypes), (1, st.just('ord')))),
        'kind': draw(gen.kinds),
        'maxlen': draw(gen.weighted((5, st.integers(1, 5)), (1, st.none()))),
        'auto_drop': auto,
        'script': script,
        'end': draw(st.sampled_from([None, None, 'Fault'])),
        'stuck': draw(st.sampled_from([None, None, None, None, 'thread', 'main'])),
        'threads': draw(
            st.lists(st.lists(ops, min_size=1, max_size=7 if tier == 'quick' else 20), min_size=1, max_size=4)
        ),
        'main': draw(
            st.lists(
                st.sampled_from([['wait', 3e-4], ['wait', 2e-3], ['drop', 1], ['drop', 2], ['is_running'], ['restart'], ['mk']]),
                max_size=4,
            )
        ),
        'schedule': draw(gen.schedules(line=0.9)),
    }


def stuck(buf, who, src):
    """A source that does not come back from read() for a minute does not keep stop() from returning."""
    src.scripts = [deque([['s', 60.0]]) for _ in range(9)]
    buf.start()
    V.vsleep(0.1)
    t0, took = V.vnow(), []

    def stopper():
        buf.stop()
        took.append(V.vnow() - t0)

    if who == 'main':
        stopper()
    else:
        th = Threads()
        th.go(stopper, name='stopper')
        th.join()
    if took[0] > 20:
        raise Violation(f'stop() took {took[0]} s while the source was reading')
    buf.join()


def run(case, rec):
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    count, bnexts, inside = [0], [0], [0]

    def main():
        src = mk_source_class()(book, [case['script'], case['script'], case['script']], sleep=2e-4, end=case['end'])
        buf = StreamBuffer(src, maxlen=case['maxlen'], auto_drop=case['auto_drop'])
        src.calls['stop'] = buf.stop
        buf.start()

        def one(reader, op):
            k = op[0]
            if k == 'block':
                reader.read(blocking=True)
            elif k == 'block_n':
                reader.read(n=2, blocking=True)
            elif k == 'iter':
                for i, _ in enumerate(reader):
                    if i >= op[1]:
                        break
            elif k == 'drain':
                for _ in reader:
                    pass
            elif k == 'mk':
                return buf.mk_reader()
            elif k == 'is_running':
                if type(buf.is_running) is not bool:
                    raise Violation('is_running is no bool')
            elif k == 'info':
                buf.source_reader_info, reader.source_reader_info, reader.is_stopped
            elif k == 'attach':
                buf.attach_reader(reader)
            elif k == 'bnext':
                mine = bnexts[0] = bnexts[0] + 1
                inside[0] += 1
                alone = inside[0] == 1
                try:
                    next(buf)
                except StopIteration:
                    pass
                except TypeError:
                    # it has one cursor: calls from several threads at once may disturb each other
                    if alone and bnexts[0] == mine:
                        raise
                finally:
                    inside[0] -= 1
            elif k == 'same':
                reader.is_same_buffer(reader)
            elif k == 'nap':
                V.vsleep(2e-4)
            elif k.startswith('bad_'):
                bad = object()
                try:
                    if k == 'bad_range':
                        reader.range(bad, bad)
                    elif k == 'bad_range_new':
                        reader.range(bad, book.key(3), only_new_items=True, start_le=True, stop_ge=True)
                    elif k == 'bad_step':
                        reader.range(book.key(0), book.key(5), step=0)
                    elif k == 'bad_read':
                        reader.read(n='x')
                    elif k == 'bad_seek':
                        reader.last_item = bad
                        reader.read()
                    elif k == 'bad_mk':
                        buf.mk_reader(no_such_option=1)
                    elif k == 'bad_attach':
                        buf.attach_reader(None)
                    elif k == 'bad_drop':
                        buf.drop('x')
                except (Exception, StopIteration):
                    pass
                if k == 'bad_seek':
                    del reader.last_item
            else:
                if k == 'seek':
                    if not book.items:
                        return None
                    cands = sorted(book.items)
                    op = ['seek', {}, cands[op[1] % len(cands)]]
                call_reader(book, reader, op)
            return None

        def worker(ops):
            reader = buf.mk_reader()
            reader.set_sleep_time_on_iter_none(2e-4)
            for op in ops:
                reader = one(reader, op) or reader
                reader.set_sleep_time_on_iter_none(2e-4)
                count[0] += 1

        th = Threads()
        for i, ops in enumerate(case['threads']):
            th.go(worker, ops, name=f'worker{i}')
        restarts = 0
        for cmd in case['main']:
            if cmd[0] == 'wait':
                V.vsleep(cmd[1])
            elif cmd[0] == 'drop':
                if not case['auto_drop']:
                    spy = buf.mk_reader()
                    out = call_reader(book, spy, ['range', {'start': -5, 'stop': 500, 'peek': True}])
                    if out[0] == 'val' and len(out[1]) >= cmd[1]:
                        buf.drop(cmd[1])
            elif cmd[0] == 'restart':
                if restarts < 2 and ['bad_drop'] not in sum(case['threads'], []):
                    restarts += 1
                    buf.start()
            elif cmd[0] == 'mk':
                buf.mk_reader().read(ignore_no_item_found=True)
            else:
                buf.is_running
            count[0] += 1
        buf.stop()
        th.join()
        buf.join()
        if buf.is_running:
            raise Violation('is_running after stop()')
        if src.call_errors:
            raise Violation(f'stop() called by the source raised {src.call_errors[0]!r}')
        if case.get('stuck'):
            stuck(buf, case['stuck'], src)

    s = V.Scheduler(case['schedule'], max_steps=400_000, max_time=200.0)
    s.run(main)
    rec.nontrivial = count[0] >= 4 and s.switches >= 4
    rec.label('restart' if ['restart'] in case['main'] else 'single', *{'op-' + o[0] for t in case['threads'] for o in t})
