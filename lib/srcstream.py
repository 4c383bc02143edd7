"""Histories of a StreamSource: readers opened and closed, settings, sessions."""
from hypothesis import strategies as st

import gen
import vworld as V
from harness import HarnessError, Violation
from sessions import check_log
from streams import FAULTS, Book, ReaderModel, agrees, call_reader, cursor_of, mk_source_class, window_after

CLOSE_HOWS = ['close', 'exit', 'with', 'with_raise', 'dunder']


class Body(Exception):
    pass


class View:
    """Book for the items of one session, in positions of that session."""

    def __init__(self, book, ses):
        self.book, self.ses = book, ses
        self.key = book.key

    def pos(self, obj):
        ident = self.book.pos(obj)
        if ident[0] != self.ses:
            raise Violation(f'a reader of session {self.ses} returned item {ident[1]} of session {ident[0]}')
        return ident[1]

    def norm(self, result):
        if result is None:
            return None
        if type(result) is list:
            return [self.pos(x) for x in result]
        return self.pos(result)

    def item(self, p):
        return self.book.tagged(self.ses, p)


open_opts = st.fixed_dictionaries(
    {},
    optional={
        'read_size': st.integers(1, 4),
        'strict_n': st.booleans(),
        'ignore_no_item_found': st.booleans(),
    },
)

configs = st.fixed_dictionaries(
    {},
    optional={
        'maxlen': gen.weighted((4, st.integers(1, 8)), (1, st.none())),
        'sleep_time_on_read_none_s': st.sampled_from([None, 0.05, 1, 0.5]),
        'auto_drop': st.booleans(),
    },
)


@st.composite
def lifecycle_cases(draw, tier):
    ops = gen.weighted((4, gen.read_ops()), (2, gen.next_ops), (1, gen.tail_ops), (1, gen.head_ops), (1, gen.range_ops(st.integers(-2, 12))))
    two = draw(st.integers(0, 3)) == 0  # another source of the same class is used in between
    body = draw(
        st.lists(
            gen.weighted(
                *([(5, st.one_of(open_opts.map(lambda o: ['other', ['open', o]]), st.integers(1, 4).map(lambda n: ['other', ['feed', n]])))] if two else []),
                *([(3, st.tuples(st.just('close'), st.integers(0, 9), st.sampled_from(CLOSE_HOWS)).map(lambda t: ['other', list(t)]))] if two else []),
                *([(1, st.sampled_from([['close_all'], ['op', 0, ['read', {}]]]).map(lambda c: ['other', c]))] if two else []),
                (5, open_opts.map(lambda o: ['open', o])),
                (5, st.tuples(st.just('close'), st.integers(0, 9), st.sampled_from(CLOSE_HOWS)).map(list)),
                (3, st.sampled_from(CLOSE_HOWS).map(lambda h: ['close', 0, h, 'hasty'])),
                (3, st.just(['close_all'])),
                (1, st.tuples(st.just('away'), st.integers(0, 9)).map(list)),
                (3, st.tuples(st.just('reclose'), st.integers(0, 9), st.sampled_from(CLOSE_HOWS)).map(list)),
                (6, st.integers(1, 5).map(lambda n: ['feed', n])),
                (5, st.tuples(st.just('op'), st.integers(0, 9), ops).map(list)),
                (1, st.sampled_from([['wait', 0.0], ['wait', 0.3], ['wait', 5.0]])),
            ),
            min_size=3,
            max_size=16 if tier == 'quick' else 50,
        )
    )
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(st.sampled_from([k for k in ('tuple', 'dict', 'obj', 'array', 'falsy')])),
        'config': draw(gen.weighted((2, st.none()), (1, configs))),
        'reader_cls': draw(st.sampled_from(['no', 'no', 'sub'])),
        'sleep': draw(st.sampled_from([None, 0.1, 2])),
        'close_time': draw(st.sampled_from([0.0, 0.0, 0.4, 3.0])),
        # openings that fail
        'open_faults': draw(
            gen.weighted((2, st.just([])), (1, st.lists(st.sampled_from([None, None, 'OSError', 'ValueError', 'KeyboardInterrupt']), max_size=4)))
        ),
        'close_faults': draw(gen.weighted((3, st.just([])), (1, st.lists(st.sampled_from([None, 'OSError', 'ValueError']), max_size=4)))),
        'cmds': [['open', draw(open_opts)]] + ([['feed', 2]] if draw(st.booleans()) else []) + body,
    }


def run_lifecycle(case, rec):
    import stream2py

    book = Book(case['ktype'], case['kind'])
    cfg = case['config']
    stats = dict(opens=0, failed=0, sessions=0, closes=0, recloses=0, ops=0, values=0, shared=0, old=0, two=0, hasty=0, away=0)
    dflt = dict(maxlen=None, sleep_time_on_read_none_s=None, auto_drop=True)
    conf = dict(dflt, **cfg) if cfg is not None else dict(dflt, maxlen=100)

    class SubReader(stream2py.BufferReader):
        pass

    cls = mk_source_class('StreamSource')

    others = []

    def elsewhere():
        if not others:
            others.append(stream2py.StreamBuffer(cls(book, [[['i', 1], ['i', 2]]], tagged=True)))
            others[0].start()
            V.vsleep(1)
        return others[0]

    def host(name):
        """One source and what is expected of it; gives (step, check_state, finish)"""
        kw = {'reader_cls': SubReader} if case['reader_cls'] == 'sub' else {}
        src = cls(book, [], sleep=case['sleep'], close_time=case['close_time'], tagged=True, open_faults=case['open_faults'], close_faults=case['close_faults'], **kw)
        if cfg is not None:
            src.configure_buffer(**cfg)
        my = dict(sessions=0, hasty=False)
        readers = []  # dict(r, ses, model, open)
        windows = {}  # session -> all positions taken in so far
        backlog = {}

        def n_open():
            return sum(x['open'] for x in readers)

        def settle():
            my['hasty'] = False
            V.vsleep(7.0 + case['close_time'])
            ses = src.session
            if n_open() and conf['auto_drop']:
                windows[ses] += backlog[ses]
                backlog[ses] = []
            elif n_open():
                room = len(backlog[ses]) if conf['maxlen'] is None else conf['maxlen'] - len(windows[ses])
                windows[ses] += backlog[ses][: max(0, room)]
                backlog[ses] = backlog[ses][max(0, room) :]

        def window(ses):
            return window_after(windows[ses], conf['maxlen'])

        def check_state(what):
            check_log(src.log)
            if my['hasty']:
                return  # may still be closing
            opened = len([e for e in src.log if e[0] == 'opened'])
            closed = len([e for e in src.log if e[0] == 'closed'])
            if opened != my['sessions']:
                raise Violation(f'{what}: the source was opened {opened} times, expected {my["sessions"]}')
            want = opened - 1 if n_open() else opened
            if closed != want:
                raise Violation(
                    f'{what}: with {n_open()} open readers the source was opened {opened} and closed {closed} times'
                )
            for i, x in enumerate(readers):
                if x['away']:
                    continue
                stopped = x['ses'] != src.session or not n_open()
                if x['r'].is_stopped is not stopped:
                    raise Violation(f'{what}: is_stopped of reader {i} is {x["r"].is_stopped}')

        def close(x, how):
            r = x['r']
            if how == 'close':
                r.close()
            elif how == 'exit':
                r.exit()
            elif how == 'dunder':
                r.__exit__(None, None, None)
            else:
                try:
                    with r as rr:
                        if rr is not r:
                            raise Violation('entering a reader gives something else')
                        if how == 'with_raise':
                            raise Body
                except Body:
                    pass
                else:
                    if how == 'with_raise':
                        raise Violation('leaving a reader swallows exceptions')
            x['open'] = False

        def step(ci, cmd):
            what = f'step {ci} {cmd}{name}'
            k = cmd[0]
            if k == 'open':
                if len(readers) >= 8:
                    return
                new = not n_open()
                attempt = src.session + 1
                fault = new and attempt < len(case['open_faults']) and case['open_faults'][attempt]
                if fault:
                    try:
                        src.open_reader(**cmd[1])
                    except FAULTS[fault]:
                        stats['failed'] += 1
                        settle()
                        check_state(what + f' (which raised {fault})')
                        return
                    raise Violation(f'{what}: the {fault} of opening the source was lost')
                r = src.open_reader(**cmd[1])
                stats['opens'] += 1
                if new:
                    stats['sessions'] += 1
                    my['sessions'] += 1
                    windows[src.session] = []
                    backlog[src.session] = []
                else:
                    stats['shared'] += 1
                if case['reader_cls'] == 'sub' and type(r) is not SubReader:
                    raise Violation(f'{what}: the reader is a {type(r).__name__}, not of the class given')
                readers.append(dict(r=r, ses=src.session, model=ReaderModel(cmd[1]), open=True, away=False))
                settle()
                check_state(what)
                if r.source_reader_info != {'session': src.session}:
                    raise Violation(f'{what}: info {r.source_reader_info}')
            elif k == 'close':
                live = [x for x in readers if x['open']]
                if live:
                    close(live[cmd[1] % len(live)], cmd[2])
                    stats['closes'] += 1
                    if cmd[3:] == ['hasty'] and not n_open():
                        my['hasty'] = True
                        stats['hasty'] += 1
                    else:
                        settle()
                    check_state(what)
            elif k == 'away':
                # it reads from another stream now, and still has to be closed
                live = [x for x in readers if x['open']]
                if live:
                    x = live[cmd[1] % len(live)]
                    elsewhere().attach_reader(x['r'])
                    x['away'] = True
                    stats['away'] += 1
            elif k == 'close_all':
                for x in readers:
                    if x['open']:
                        close(x, 'close')
                        stats['closes'] += 1
                settle()
                check_state(what)
            elif k == 'reclose':
                dead = [x for x in readers if not x['open']]
                if dead:
                    close(dead[cmd[1] % len(dead)], cmd[2])
                    stats['recloses'] += 1
                    settle()
                    check_state(what)
            elif k == 'feed':
                if n_open():
                    ses = src.session
                    first = len(windows[ses]) + len(backlog[ses])
                    new = list(range(first, first + cmd[1]))
                    backlog[ses] += new
                    src.feed.extend(['i', p] for p in new)
                    settle()
            elif k == 'wait':
                V.vsleep(cmd[1])
            elif k == 'op':
                if not readers:
                    return
                x = readers[cmd[1] % len(readers)]
                if x['away']:
                    x['r'].tail()
                    return
                if x['open'] is False and x['ses'] == src.session and n_open():
                    pass  # a closed reader of a running session still reads
                w = window(x['ses'])
                stopped = x['ses'] != src.session or not n_open()
                exp, cur = x['model'].outcome(cmd[2], w, stopped)
                view = View(book, x['ses'])
                act = call_reader(view, x['r'], cmd[2])
                if not agrees(act, exp):
                    raise Violation(
                        f'{what} with cursor {x["model"].cursor}, defaults {x["model"].cfg}, window {w}: got {act}, expected {exp}'
                    )
                x['model'].cursor = cur
                if cursor_of(view, x['r']) != cur:
                    raise Violation(f'{what}: cursor is {cursor_of(view, x["r"])}, expected {cur}')
                stats['ops'] += 1
                stats['values'] += exp[0] == 'val' and exp[1] is not None
                stats['old'] += x['ses'] != src.session
            else:
                raise HarnessError(k)
            if not n_open():
                src.feed.clear()
        def finish():
            for x in readers:
                if x['open']:
                    close(x, 'close')
            settle()
            check_state('at the end' + name)
            check_log(src.log, final=True)

        return step, check_state, finish

    def main():
        hosts = [host('')]
        if any(cmd[0] == 'other' for cmd in case['cmds']):
            hosts.append(host(' of the other source'))
            stats['two'] += 1
        for ci, cmd in enumerate(case['cmds']):
            j = cmd[0] == 'other'
            hosts[j][0](ci, cmd[1] if j else cmd)
            if len(hosts) > 1:
                hosts[not j][1](f'after step {ci} {cmd}')
        for h in hosts:
            h[2]()
        for o in others:
            o.stop()

    V.Scheduler({'gran': 'sync'}, max_steps=3_000_000, max_time=1e6).run(main)
    rec.label(*[k for k, v in stats.items() if v])
    return stats


# ---- settings ------------------------------------------------------------------------------------
@st.composite
def config_cases(draw, tier):
    ops = gen.weighted((4, gen.read_ops()), (4, gen.next_ops))
    script = []
    p = 0
    for _ in range(draw(st.integers(2, 14 if tier == 'quick' else 40))):
        if draw(st.integers(0, 2)) == 0:
            script.append(['n'])
        script.append(['i', p])
        p += 1
    session = st.lists(
        st.tuples(open_opts, st.lists(ops, min_size=1, max_size=6)).map(list), min_size=1, max_size=3
    )
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(st.sampled_from(['tuple', 'dict', 'array', 'falsy'])),
        'configs': draw(st.lists(configs, max_size=2)),
        'own_sleep': draw(st.sampled_from([None, 0.2, 3, 0.01])),
        'reader_cls': draw(st.sampled_from(['no', 'sub', 'override'])),
        'late': draw(st.integers(0, 3)),
        'late_config': draw(configs),
        'script': script,
        'sessions': draw(st.lists(session, min_size=1, max_size=2)),
        'tick': draw(st.sampled_from([0.0, 0.25, 12.5])),
        # another source of the same class, with settings of its own or none
        'sibling': draw(st.one_of(st.none(), st.lists(configs, max_size=1))),
        'sibling_first': draw(st.booleans()),
        'sibling_reader_cls': draw(st.sampled_from(['no', 'sub', 'override'])),
    }


def run_config(case, rec):
    import stream2py

    book = Book(case['ktype'], case['kind'])
    stats = dict(ops=0, late=0, dropped=0, waits=0, values=0, full=0, siblings=0)

    class SubReader(stream2py.BufferReader):
        pass

    class OtherReader(stream2py.BufferReader):
        pass

    classes = {}

    def main():
        cls = mk_source_class('StreamSource')

        def mk(sessions, reader_cls):
            scripts = [list(case['script']) for _ in sessions]
            kw = {'reader_cls': reader_cls} if reader_cls else {}
            s = cls(book, scripts, sleep=case['own_sleep'], tagged=True, **kw)
            classes[id(s)] = reader_cls or stream2py.BufferReader
            return s

        sib = case['sibling']
        mine = None if case['reader_cls'] == 'no' else SubReader
        its = {'no': None, 'sub': SubReader, 'override': OtherReader}[case['sibling_reader_cls']]
        other = mk([1], its) if sib is not None and case['sibling_first'] else None
        src = mk(case['sessions'], mine)
        if sib is not None and other is None:
            other = mk([1], its)
        V.vsleep(case['tick'])
        now = src.get_timestamp()
        if type(now) is not int or abs(now - (V.vnow() + V._EPOCH) * 1e6) > 3e4:
            raise Violation(f'get_timestamp() is {now!r}, the time is {(V.vnow() + V._EPOCH) * 1e6:.0f} us')
        if other is not None and case['sibling_first']:
            configure(other, sib)
        configure(src, case['configs'])
        if other is not None and not case['sibling_first']:
            configure(other, sib)
        play(src, case['configs'], case['sessions'])
        if other is not None:
            stats['siblings'] += 1
            play(other, sib, [case['sessions'][0][:1]])

    def configure(src, configs):
        for c in configs:
            if src.configure_buffer(**c) is not src:
                raise Violation('configure_buffer() does not return the source')

    def too_late(src, when):
        stats['late'] += 1
        try:
            src.configure_buffer(**case['late_config'])
        except ValueError:
            pass
        else:
            raise Violation(f'configure_buffer() of a source that was started already ({when}) was accepted')

    def play(src, configs, sessions):
        conf = dict(maxlen=100, sleep_time_on_read_none_s=None, auto_drop=True)
        for c in configs:
            conf = dict(dict(maxlen=None, sleep_time_on_read_none_s=None, auto_drop=True), **c)
        pause = conf['sleep_time_on_read_none_s']
        if pause is None:
            pause = case['own_sleep']
        if pause is None:
            pause = 0.3
        produced = [a[1] for a in case['script'] if a[0] == 'i']
        for si, session in enumerate(sessions):
            opened = []
            for opts, ops in session:
                r = src.open_reader(**opts)
                if type(r) is not classes[id(src)]:
                    raise Violation(f'the reader is a {type(r).__name__}, not a {classes[id(src)].__name__}')
                opened.append((r, opts, ops))
            if case['late'] > si or (case['late'] == 3 and si == 0):
                too_late(src, 'running')
            V.vsleep(5.0 + (pause + 0.1) * (len(case['script']) + 3))
            ses = src.session
            taken = src.produced[ses]
            if conf['auto_drop'] or conf['maxlen'] is None:
                if taken != produced:
                    raise Violation(f'the source produced {taken} instead of {produced}')
            elif len(taken) != min(len(produced), conf['maxlen']):
                raise Violation(f'{len(taken)} items were taken with maxlen {conf["maxlen"]} without dropping')
            w = window_after(taken, conf['maxlen'])
            stats['dropped'] += len(w) < len(taken)
            stats['full'] += len(taken) < len(produced)
            # the pace of reads after None: only reads of this session
            last = None
            full = conf['maxlen'] is not None and not conf['auto_drop']
            for ev, s, clock, payload in [e for e in src.log if e[1] == ses]:
                if ev == 'read':
                    if last is not None:
                        wait = clock - last[0]
                        want = pause if last[1] is None else 0.0
                        if not want - 1e-9 <= wait <= want + 0.05 and not (full and wait > want):
                            raise Violation(
                                f'the source was read {wait:.4f}s after it gave {last[1]}, expected {want} '
                                f'(configured {conf["sleep_time_on_read_none_s"]}, own {case["own_sleep"]})'
                            )
                        stats['waits'] += last[1] is None
                elif ev == 'read_end':
                    last = (clock, payload)
            view = View(book, ses)
            for r, opts, ops in opened:
                m = ReaderModel(opts)
                for op in ops:
                    exp, cur = m.outcome(op, w)
                    act = call_reader(view, r, op)
                    if not agrees(act, exp):
                        raise Violation(f'{op} of a reader opened with {opts}, cursor {m.cursor}, window {w}: got {act}, expected {exp}')
                    m.cursor = cur
                    stats['ops'] += 1
                    stats['values'] += exp[0] == 'val' and exp[1] is not None
                got = call_reader(view, r, ['range', {'start': -5, 'stop': 1000, 'peek': True}])
                if got != ('val', w):
                    raise Violation(f'the buffer holds {got}, expected {w} (settings {conf})')
            for r, _, _ in opened:
                r.close()
            V.vsleep(3.0)
            if case['late'] in (1, 3):
                too_late(src, 'stopped again')

    V.Scheduler({'gran': 'sync'}, max_steps=3_000_000, max_time=1e6).run(main)
    rec.label(*[k for k, v in stats.items() if v])
    rec.label('reader_cls-' + case['reader_cls'])
    return stats
