"""mk_stream_buffer: a stream from plain functions."""
import contextlib

from hypothesis import strategies as st

import gen
import vworld as V
from harness import HarnessError, Violation
from streams import FAULTS, OTHER_FAULTS

ID = 'C23'
RULE = (
    'A case is a script of values, gaps and a failure for the read function, which optional functions and settings are '
    'given, a body (waits, reads, drops, a restart) and the way it is left; calls received by the functions, results of '
    'readers and the content are compared with a model. Non-trivial if items were read in the body.'
)
CASES = {'quick': 4000, 'thorough': 80000}

ATOMS = ['text', '', 0, 7, -3, False, 2.5, [], [1, 2], (), (4, 'x'), (3,), {}, {'a': 1}]


@st.composite
def strategy(draw, tier):
    enum = draw(gen.weighted((3, st.just(True)), (3, st.just(False)), (1, st.none())))
    key = draw(st.sampled_from([None, 'first', 'second', 'neg'])) if enum is not False else draw(
        st.sampled_from([None, 'scaled', 'neg'])
    )
    script = []
    p = 0
    many = 0
    if draw(st.integers(0, 24)) == 7:  # more than the default length
        many = draw(st.integers(90, 115))
        p = many + 3
        script = [['v', (-1 if key == 'neg' else 1) * (i + 1)] for i in range(many)]
    # data only has to increase where it is the key
    anything = enum is not False and key in (None, 'first')
    for _ in range(draw(st.integers(0, 10 if tier == 'quick' else 40))):
        k = draw(st.integers(0, 5))
        if k == 0:
            script.append(['n'])
        elif anything and draw(st.booleans()):
            script.append(['a', draw(st.integers(0, len(ATOMS) - 1))])
        else:
            p += draw(st.integers(1, 3))
            script.append(['v', -p if key == 'neg' else p])
    body = draw(
        st.lists(
            gen.weighted(
                (3, st.just(['idle'])),
                (3, st.tuples(st.just('read'), st.integers(1, 4)).map(list)),
                (2, st.just(['all'])),
                (1, st.just(['info'])),
                (2, st.integers(1, 3).map(lambda n: ['drop', n])),
                (1, st.sampled_from([['restart'], ['stop'], ['nothing']])),
            ),
            max_size=7,
        )
    )
    return {
        'script': script,
        'enum': enum,
        'key': key,
        'maxlen': 'default' if many and draw(st.integers(0, 2)) else draw(gen.weighted((2, st.just('default')), (2, st.none()), (3, st.integers(1, 6)))),
        'auto_drop': draw(gen.weighted((2, st.just('default')), (1, st.just(True)), (2, st.just(False)))),
        'pause': draw(st.sampled_from([None, 0.1, 2, 0.75, 0])),
        'open': draw(st.sampled_from(['none', 'object', 'object', 'raises'])) if draw(st.booleans()) else 'object',
        'inst': draw(st.sampled_from(['object', 'object', 'object', 'falsy', 'none'])),
        'close': draw(st.sampled_from(['none', 'ok', 'ok', 'raises'])),
        'info': draw(st.sampled_from(['none', 'given'])),
        'fault': draw(st.sampled_from([None, None, 'Fault', 'StopIteration', 'OSError', 'KeyboardInterrupt', None, None, *OTHER_FAULTS])),
        'body': [['idle']] + body,
        'leave': draw(st.sampled_from(['end', 'raise', 'raise'])),
    }


class Body(Exception):
    pass


def run(case, rec):
    from stream2py.simply import mk_stream_buffer

    key = case['key']
    enum = case['enum'] is not False
    auto = case['auto_drop'] is not False
    maxlen = 100 if case['maxlen'] == 'default' else case['maxlen']
    pause = 0.3 if case['pause'] is None else case['pause']
    if pause == 0:
        auto = True  # (a full buffer would be looked at without end)
    case = dict(case, script=[['v', ATOMS[a[1]]] if a[0] == 'a' else a for a in case['script']])
    values = [a[1] for a in case['script'] if a[0] == 'v']
    stats = dict(read=0, restarts=0, infos=0, gaps=0, ends=0)
    keyfn = {
        'first': lambda d: d[0],
        'second': lambda d: d[1],
        'scaled': lambda d: d * 10,
        'neg': (lambda d: -d[1]) if enum else (lambda d: -d),
        None: None,
    }[key]

    def expected_items(n):
        return [(i, v) for i, v in enumerate(values[:n])] if enum else values[:n]

    def main():
        log = []  # (event, instance, clock)
        st_ = dict(n=0, script=[], taken=0)
        instances = []

        class Instance:
            def __repr__(self):
                return 'the-open-instance'

        class Falsy(Instance):
            def __len__(self):
                return 0

        def open_stream():
            log.append(('open', None, V.vnow()))
            if case['open'] == 'raises':
                raise FAULTS['OSError']('open')
            instances.append({'none': lambda: None, 'falsy': Falsy}.get(case['inst'], Instance)())
            st_['script'] = list(case['script'])
            st_['taken'] = 0
            return instances[-1]

        def read_stream(inst):
            if case['open'] == 'none' and not st_.get('init'):
                st_['init'] = True
                st_['script'] = list(case['script'])
            log.append(('read', inst, V.vnow()))
            V.vsleep(0.02) if pause == 0 else V.yield_()
            while st_['script']:
                a = st_['script'].pop(0)
                if a[0] == 'n':
                    log.append(('none', inst, V.vnow()))
                    return None
                st_['taken'] += 1
                log.append(('value', inst, V.vnow()))
                return a[1]
            st_['idle'] = True
            if case['fault']:
                raise FAULTS[case['fault']]('read')
            log.append(('none', inst, V.vnow()))
            return None

        def close_stream(inst):
            log.append(('close', inst, V.vnow()))
            if case['close'] == 'raises':
                raise FAULTS['ValueError']('close')
            return True

        kw = {}
        if case['open'] != 'none':
            kw['open_stream'] = open_stream
        if case['close'] != 'none':
            kw['close_stream'] = close_stream
        if case['info'] == 'given':
            kw['info'] = lambda inst: {'inst': inst, 'tag': 17}
        if key is not None:
            kw['key'] = keyfn
        if case['maxlen'] != 'default':
            kw['maxlen'] = case['maxlen']
        if case['auto_drop'] != 'default' and auto is (case['auto_drop'] is not False):
            kw['auto_drop'] = case['auto_drop']
        if case['pause'] is not None:
            kw['sleep_time_on_read_none_seconds'] = case['pause']
        if case['enum'] is not None:
            kw['enumerate_data'] = case['enum']

        def same(a, b):
            return type(a) is type(b) and (
                len(a) == 2 and a[0] == b[0] and type(a[1]) is type(b[1]) and a[1] == b[1] if enum else a == b
            )

        state = dict(dropped=0, window=[], running=True, first=0, reader=None, got=[])

        def idle(buf):
            V.vsleep((len(case['script']) + 3) * (pause + 0.1))
            n = st_['taken']
            if case['fault'] and st_.get('idle') and state['running']:
                state['running'] = False
                if buf.is_running:
                    raise Violation(f'still running after the read function raised {case["fault"]}')
            items = expected_items(n)
            if auto:
                state['window'] = items if maxlen is None else items[max(0, len(items) - maxlen) :]
                if n != len(values) and state['running']:
                    raise Violation(f'{n} of {len(values)} values were read')
            else:
                state['window'] = items[state['dropped'] :]
                want = len(values) if maxlen is None else min(len(values), state['dropped'] + maxlen)
                if state['running'] and n != want:
                    raise Violation(f'{n} values were read, expected {want} (maxlen {maxlen}, {state["dropped"]} dropped)')

        def show(buf, what):
            w = state['window']
            r = buf.mk_reader()
            got = []
            while True:
                x = r.read(ignore_no_item_found=True)
                if x is None:
                    break
                got.append(x)
                if len(got) > len(w):
                    break
            if len(got) != len(w) or not all(same(a, b) for a, b in zip(got, w)):
                raise Violation(f'{what}: readers get {got!r}, expected {w!r}')
            stats['read'] += len(got)
            if w and len(w) > 1:
                ks = [keyfn(x) if keyfn else x for x in w]
                part = buf.mk_reader().range(ks[1], ks[-1], peek=True)
                if len(part) != len(w) - 1 or not all(same(a, b) for a, b in zip(part, w[1:])):
                    raise Violation(f'{what}: the range of keys {ks[1]!r}..{ks[-1]!r} is {part!r}, expected {w[1:]!r}')

        opened = case['open'] != 'none'

        def check_inst(sessions):
            if opened and len(instances) != sessions:
                raise Violation(f'opened {len(instances)} times, expected {sessions}')

        err = None
        sessions = 1
        try:
            with mk_stream_buffer(read_stream, **kw) as buf:
                if case['open'] == 'raises':
                    raise Violation('the body runs although opening raised')
                check_inst(1)
                for c in case['body']:
                    k = c[0]
                    if k == 'idle':
                        idle(buf)
                        show(buf, 'in the body')
                    elif k == 'read':
                        idle(buf)
                        w = state['window']
                        r = buf.mk_reader(ignore_no_item_found=True)
                        x = r.read(c[1])
                        exp = None if not w else (w[: c[1]] if c[1] > 1 else w[0])
                        ok = x is None if exp is None else (
                            type(x) is list and len(x) == len(exp) and all(same(a, b) for a, b in zip(x, exp))
                            if c[1] > 1 else same(x, exp)
                        )
                        if not ok:
                            raise Violation(f'read({c[1]}) gave {x!r}, expected {exp!r}')
                    elif k == 'all':
                        if not state['running']:
                            got = list(buf.mk_reader())
                            w = state['window']
                            if len(got) != len(w) or not all(same(a, b) for a, b in zip(got, w)):
                                raise Violation(f'iterating after the end gives {got!r}, expected {w!r}')
                            stats['ends'] += 1
                    elif k == 'info':
                        info = buf.source_reader_info
                        inst = instances[-1] if instances else None
                        if case['info'] == 'given':
                            if info != {'inst': inst, 'tag': 17}:
                                raise Violation(f'info is {info}')
                        elif not isinstance(info, dict) or info.get('open_instance') != str(inst):
                            raise Violation(f'info is {info}')
                        stats['infos'] += 1
                    elif k == 'drop':
                        idle(buf)
                        if not auto and state['window']:
                            n = min(c[1], len(state['window']))
                            buf.drop(n)
                            state['dropped'] += n
                            idle(buf)
                            show(buf, f'after drop({n})')
                    elif k == 'restart':
                        if opened:
                            buf.start()
                            sessions += 1
                            stats['restarts'] += 1
                            st_.pop('idle', None)
                            state.update(dropped=0, window=[], running=True)
                            check_inst(sessions)
                            idle(buf)
                            show(buf, 'after a restart')
                    elif k == 'stop':
                        idle(buf)
                        buf.stop()
                        state['running'] = False
                        if buf.is_running:
                            raise Violation('is_running after stop()')
                        show(buf, 'after stop()')
                    elif k != 'nothing':
                        raise HarnessError(k)
                if case['leave'] == 'raise':
                    raise Body
        except Body as e:
            err = e
        except FAULTS['OSError'] as e:
            if case['open'] != 'raises':
                raise
            rec.label('open-failed')
            if [e for e in log if e[0] == 'read']:
                raise Violation('read although opening failed')
            return
        if case['open'] == 'raises':
            raise Violation('an error of open_stream was lost')
        if (err is not None) != (case['leave'] == 'raise'):
            raise Violation('the exception of the body was lost')
        if buf.is_running:
            raise Violation('is_running after leaving')
        if opened and len([e for e in log if e[0] == 'open']) != sessions:
            raise Violation('open_stream was called again')
        V.vsleep(1)
        closes = [e[1] for e in log if e[0] == 'close']
        if case['close'] != 'none':
            want = instances if opened else [None] * sessions
            if len(closes) != len(want) or any(a is not b for a, b in zip(closes, want)):
                raise Violation(f'close_stream was called with {closes}, expected {want}')
        # every session: open, reads with its instance, close; paces
        cur = None
        last = None
        for ev, inst, clock in log:
            if ev == 'open':
                cur = instances[0 if cur is None else instances.index(cur) + 1]
                last = None
            elif ev == 'read':
                if inst is not cur:
                    raise Violation(f'read_stream was called with {inst!r}, opened is {cur!r}')
                if last is not None:
                    wait = clock - last[1]
                    want = pause if last[0] == 'none' else 0
                    if wait < want - 1e-6 or (wait > want + 0.05 and auto):
                        raise Violation(f'{wait:.3f}s between a read that gave {last[0]} and the next, expected {want}')
                    stats['gaps'] += last[0] == 'none'
            elif ev in ('none', 'value'):
                last = (ev, clock)

    V.Scheduler({'gran': 'sync'}, max_steps=1_000_000, max_time=1e6).run(main)
    rec.label(*[k for k, v in stats.items() if v], f'enum-{enum}', 'auto' if auto else 'manual', f'key-{key}')
    rec.nontrivial = stats['read'] >= 2
