"""Histories of start / stop / restart with faults: lifecycle, containment and isolation."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import HarnessError, Violation
from streams import Book, FAULTS, Fault, cursor_of, mk_source_class

KINDS = ['tuple', 'dict', 'obj', 'array', 'falsy']


def check_log(log, final=False):
    """open, read* , close in strict alternation, nothing overlapping."""
    state = 'closed'
    opens = 0
    for i, (ev, ses, clock, payload) in enumerate(log):
        ok = {
            'open': state == 'closed',
            'opened': state == 'opening',
            'open_failed': state == 'opening',
            'read': state == 'open',
            'read_end': state == 'reading',
            'read_failed': state == 'reading',
            'close': state in ('open', 'failed'),
            'closed': state == 'closing',
        }[ev]
        if ev == 'open' and state == 'failed':
            ok = True
        if not ok:
            tail = [f'{e[0]}#{e[1]}@{e[2]:.2f}' for e in log[max(0, i - 6) : i + 1]]
            raise Violation(f'the source got {ev}() while it was {state}: ... {tail}')
        state = {
            'open': 'opening',
            'opened': 'open',
            'open_failed': 'failed',
            'read': 'reading',
            'read_end': 'open',
            'read_failed': 'open',
            'close': 'closing',
            'closed': 'closed',
        }[ev]
        opens += ev == 'opened'
    if final and state not in ('closed', 'failed'):
        raise Violation(f'the stream is over but the source was left {state}: {[e[0] for e in log[-4:]]}')
    return opens


@st.composite
def scripts(draw, faults, slow=True, dup=True, max_items=6):
    """One session: (script, fault at its end or None)"""
    out = []
    p = draw(st.integers(0, 2))
    for _ in range(draw(st.integers(0, max_items))):
        k = draw(st.integers(0, 11))
        if k == 0:
            out.append(['n'])
        elif k == 1 and slow:
            out.append(['s', draw(st.sampled_from([0.01, 0.3, 1.5, 4.0]))])
        elif k == 2:
            out.append(['y', draw(st.integers(1, 30))])
        out.append(['i', p])
        p += draw(st.integers(1, 3))
    end = None
    if faults:
        end = draw(st.sampled_from(['-', 'read', 'read', 'dup', 'key', 'odd'] if dup else ['-', 'read']))
        if end == 'read':
            out.append(['x', draw(st.sampled_from(sorted(FAULTS)))])
        elif end == 'dup':
            have = [a[1] for a in out if a[0] == 'i']
            if have:
                out.append(['i', draw(st.sampled_from([have[-1], have[0], have[-1] - 1]))])
                out.append(['i', p + 5])
            else:
                end = '-'
        elif end == 'odd':
            if any(a[0] == 'i' for a in out):
                out.append(['z', p])
                out.append(['i', p + 5])
            else:
                end = '-'
        elif end == 'key':
            out.append(['k', p])
            out.append(['i', p + 5])
    return [out, end if end != '-' else None]


@st.composite
def session_cases(draw, tier, *, focus, n_sessions=(2, 4), kinds=KINDS):
    faults = focus == 'faults' or draw(st.integers(0, 2)) == 0
    controllers = focus == 'lifecycle'
    n = draw(st.integers(*n_sessions))
    sess = [draw(scripts(faults)) for _ in range(n + 2)]

    def some(p):
        return [draw(st.sampled_from(sorted(FAULTS))) if draw(st.integers(0, 99)) < p else None for _ in range(n + 2)]

    w = {
        'lifecycle': dict(start=6, stop=5, idle=2, wait=5, use=1),
        'faults': dict(start=4, stop=2, idle=6, wait=2, use=2),
        'isolation': dict(start=4, stop=2, idle=4, wait=2, use=4),
    }[focus]
    simple = gen.weighted(
        (w['start'], st.just(['start'])),
        (w['stop'], st.just(['stop'])),
        (w['idle'], st.just(['idle'])),
        (w['wait'], st.sampled_from([['wait', 0.0], ['wait', 0.001], ['wait', 0.2], ['wait', 1.2], ['wait', 6.0]])),
        (w['use'], gen.reader_cfgs(peek=False).map(lambda c: ['mk', c])),
        (w['use'], st.tuples(st.integers(0, 4), st.integers(1, 4)).map(lambda t: ['read', *t])),
        (w['use'], st.integers(0, 4).map(lambda r: ['drain', r])),
        (w['use'], st.just(['bnext'])),
        (1, st.integers(0, 4).map(lambda r: ['iterate', r])),
    )
    with_ = st.tuples(st.lists(simple, max_size=4), st.booleans(), st.integers(0, 3)).map(
        lambda t: ['with', [c for c in t[0] if c[0] not in ('start',)], t[1], t[2] == 3]
    )
    body = draw(st.lists(gen.weighted((9, simple), (2, with_)), min_size=3, max_size=14 if tier == 'quick' else 40))
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(st.sampled_from(kinds)),
        'maxlen': draw(gen.weighted((1, st.none()), (2, st.integers(1, 8)))),
        'sessions': sess,
        'open_faults': some(15) if faults else [],
        'info_faults': some(8) if faults else [],
        'close_faults': some(15) if faults else [],
        'info': draw(st.sampled_from([None, None, {}, {'rate': 1}])) if focus == 'isolation' else None,
        'open_time': draw(st.sampled_from([0.0, 0.0, 0.2])),
        'close_time': draw(st.sampled_from([0.0, 0.0, 0.2, 2.5])),
        'sleep': draw(st.sampled_from([0.05, 0.3, 2.5] + [100] * (focus == 'lifecycle'))),
        'cmds': [['start'], ['mk', {}]] + body,
        'second': draw(
            st.lists(
                st.sampled_from([['start'], ['stop'], ['wait', 0.0], ['wait', 0.5], ['wait', 1.5]]),
                max_size=4 if controllers and draw(st.integers(0, 2)) == 0 else 0,
            )
        ),
        'schedule': draw(gen.schedules()),
    }


class Body(Exception):
    pass


def run_sessions(case, rec, focus):
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    info_of = (lambda ses: {'session': ses}) if case.get('info') is None else (lambda ses: case['info'])
    maxlen = case['maxlen']
    stats = dict(starts=0, failed_starts=0, faults=0, restarts=0, items=0, stale=0)

    def main():
        src = mk_source_class()(
            book,
            [s[0] for s in case['sessions']],
            sleep=case['sleep'],
            open_faults=case['open_faults'],
            close_faults=case['close_faults'],
            info_faults=case['info_faults'],
            open_time=case['open_time'],
            close_time=case['close_time'],
            tagged=True,
        )
        src.fixed_info = case.get('info')
        buf = StreamBuffer(src, maxlen=maxlen)
        readers = []  # (reader, session, list of positions got)
        state = dict(started=False, stopped=True, ok=-1, bn=None, ever=False)

        def expected_window(ses):
            """what a finished, undisturbed session leaves behind; None if that depends on timing"""
            script, fault = case['sessions'][ses]
            good = []
            for a in script:
                if a[0] in ('x', 'k', 'z') or (a[0] == 'i' and good and a[1] <= good[-1]):
                    break
                if a[0] == 'i':
                    good.append(a[1])
            return good

        def session_over(ses):
            """the script has been consumed as far as it ever will be"""
            script, fault = case['sessions'][ses] if ses < len(case['sessions']) else ([], None)
            if fault:
                return not buf.is_running
            return src.idle_session == ses

        def faulty(ses):
            return bool(case['sessions'][ses][1]) if ses < len(case['sessions']) else False

        def do_start(enter=buf.start):
            n0 = src.session
            stats['starts'] += 1
            stats['restarts'] += state['started'] and not state['stopped']
            try:
                enter()
            except V.Killed:
                raise
            except BaseException as e:
                ses = src.session
                why = [f[ses] for f in (case['open_faults'], case['info_faults']) if ses < len(f) and f[ses]]
                if why and case['close_faults'][ses] and not issubclass(FAULTS[case['close_faults'][ses]], Exception):
                    why.append(case['close_faults'][ses])
                if ses == n0 or type(e) not in [FAULTS[w] for w in why]:
                    raise
                stats['failed_starts'] += 1
                state.update(started=True, stopped=True, ok=-1, bn=None)
                if focus == 'faults':
                    V.vsleep(0.01)
                    if buf.is_running:
                        raise Violation(f'start() failed with {type(e).__name__} but is_running is True')
                return False
            ses = src.session
            if ses != n0 + 1:
                raise Violation(f'start() opened the source {ses - n0} times')
            why = [f[ses] for f in (case['open_faults'], case['info_faults']) if ses < len(f) and f[ses]]
            if why:
                raise Violation(f'start() succeeded although the source raised {why}')
            state.update(started=True, stopped=False, ok=ses, bn=None, ever=True)
            if focus in ('faults', 'isolation'):
                if not faulty(ses) and not buf.is_running:
                    raise Violation('the stream is not running after start()')
            if focus == 'isolation' and buf.source_reader_info != info_of(ses):
                raise Violation(f'source info {buf.source_reader_info} after session {ses} was opened')
            return True

        def do_stop(leave=buf.stop):
            if not state['started']:
                return
            leave()
            state.update(stopped=True, bn=None)
            if buf.is_running:
                raise Violation('is_running after stop()')
            if focus == 'lifecycle' and src.log:
                ev, ses, clock, _ = src.log[-1]
                if ev in ('opened', 'read_end', 'read_failed') and V.vnow() > clock + 0.2:
                    raise Violation(
                        f'stop() returned and the source is still open, although it is not busy: {ev} was {V.vnow() - clock:.2f}s ago'
                    )

        def took(i, x):
            r, ses, got = readers[i]
            for v in x if type(x) is list else [x]:
                ident = book.pos(v)
                if ident[0] != ses:
                    raise Violation(f'a reader of session {ses} returned item {ident[1]} of session {ident[0]}')
                if got and ident[1] <= got[-1]:
                    raise Violation(f'a reader of session {ses} returned {ident[1]} after {got}')
                got.append(ident[1])
                stats['items'] += 1
                stats['stale'] += ses != src.session

        def complete(ses):
            """nothing more will come in; to be asked before reading"""
            return ses != src.session or session_over(ses)

        def drained(i):
            """everything there is has been read: compare if the session ended undisturbed"""
            r, ses, got = readers[i]
            if ses in disturbed:
                return
            want = expected_window(ses)
            keep = want if maxlen is None else want[-maxlen:]
            if [p for p in got if p in keep] != keep or not set(got) <= set(want):
                raise Violation(f'a reader of session {ses} has got {got}, the session offers {keep} (maxlen {maxlen})')

        disturbed = set()  # sessions stopped before their script was done

        def leaving():
            ses = src.session
            if state['started'] and not state['stopped'] and ses >= 0 and ses < len(case['sessions']):
                if not session_over(ses):
                    disturbed.add(ses)
                elif src.idle_session != ses and not faulty(ses):
                    disturbed.add(ses)

        def do(cmd):
            k = cmd[0]
            if k == 'start':
                leaving()
                if src.session + 1 < len(case['sessions']):
                    do_start()
            elif k == 'stop':
                leaving()
                do_stop()
            elif k == 'wait':
                V.vsleep(cmd[1])
            elif k == 'idle':
                if state['ok'] >= 0 and not state['stopped']:
                    for _ in range(4000):
                        if session_over(src.session):
                            break
                        V.vsleep(0.25)
                    else:
                        raise Violation(f'session {src.session} makes no progress')
                    V.vsleep(case['close_time'] + 0.01)
                    if focus == 'faults' and faulty(src.session):
                        stats['faults'] += 1
                        after_fault()
            elif k == 'mk':
                if state['ok'] >= 0:
                    ses = src.session
                    readers.append((buf.mk_reader(**cmd[1]), ses, []))
                    if focus == 'isolation':
                        for r2, s2, _ in readers[:-1]:
                            if readers[-1][0].is_same_buffer(r2) is not (s2 == ses):
                                raise Violation(f'is_same_buffer of sessions {s2} and {ses}')
                        if readers[-1][0].source_reader_info != info_of(ses):
                            raise Violation(f'a new reader has info {readers[-1][0].source_reader_info}')
            elif k in ('read', 'drain', 'iterate'):
                if not readers:
                    return
                i = cmd[1] % len(readers)
                r, ses, got = readers[i]
                if k == 'read':
                    for _ in range(cmd[2]):
                        x = r.read(n=1, ignore_no_item_found=True)
                        if x is None:
                            break
                        took(i, x)
                elif k == 'drain':
                    done = complete(ses)
                    while True:
                        x = r.read(n=1, ignore_no_item_found=True)
                        if x is None:
                            break
                        took(i, x)
                    if done:
                        drained(i)
                elif ses != src.session or state['stopped'] or not buf.is_running:
                    done = complete(ses)
                    try:
                        for x in r:
                            took(i, x)
                    except ValueError:
                        if not r.strict_n:
                            raise
                    else:
                        if done:
                            drained(i)
                if focus == 'isolation':
                    if r.source_reader_info != info_of(ses):
                        raise Violation(f'a reader of session {ses} has info {r.source_reader_info}')
                    if ses != src.session and not r.is_stopped:
                        raise Violation(f'a reader of the finished session {ses} is not stopped')
            elif k == 'bnext':
                if state['ok'] >= 0:
                    try:
                        x = next(buf)
                    except StopIteration:
                        if buf.is_running:
                            raise Violation('next(buffer) ended a running stream')
                        return
                    if x is not None:
                        tag, p = book.pos(x)
                        if focus == 'isolation' and tag != src.session:
                            raise Violation(f'next(buffer) returned an item of session {tag} in session {src.session}')
                        if state['bn'] is not None and state['bn'][0] == tag and p <= state['bn'][1]:
                            raise Violation(f'next(buffer) returned {p} after {state["bn"]}')
                        state['bn'] = (tag, p)
            elif k == 'with':
                leaving()
                if src.session + 1 >= len(case['sessions']):
                    return
                named = len(cmd) > 3 and cmd[3]
                entered = []
                if not do_start(lambda: entered.append(buf.enter() if named else buf.__enter__())):
                    return
                if entered[0] is not buf:
                    raise Violation('entering the buffer does not give the buffer')
                err = None
                try:
                    for c in cmd[1]:
                        do(c)
                    if cmd[2]:
                        raise Body
                except Body as e:
                    err = e
                leaving()
                exc = (None, None, None) if err is None else (Body, err, None)
                out = []
                do_stop(lambda: out.append((buf.exit if named else buf.__exit__)(*exc)))
                if out and out[0]:
                    raise Violation('__exit__ swallows exceptions')
            else:
                raise HarnessError(k)

        def after_fault():
            ses = src.session
            if buf.is_running:
                raise Violation(f'is_running after the source failed ({case["sessions"][ses][1]})')
            V.vsleep(case['close_time'] + 0.01)
            if not [e for e in src.log if e[0] == 'closed' and e[1] == ses]:
                raise Violation('the source was not closed after it failed')
            want = expected_window(ses)
            want = want if maxlen is None else want[-maxlen:]
            if ses in disturbed:
                return
            late = buf.mk_reader()
            got = [book.pos(x)[1] for x in late]
            if got != want:
                raise Violation(f'after the fault a new reader gets {got}, buffered is {want}')
            for r, s, _ in readers:
                if s == ses and not r.is_stopped:
                    raise Violation('a reader does not see that the failed stream is stopped')

        second = Threads()

        def controller2():
            for c in case['second']:
                if c[0] == 'wait':
                    V.vsleep(c[1])
                elif c[0] == 'start':
                    if src.session + 2 < len(case['sessions']):
                        try:
                            buf.start()
                            state['ever'] = True
                        except V.Killed:
                            raise
                        except BaseException as e:
                            if not isinstance(e, tuple(FAULTS.values())):
                                raise
                elif state['ever']:
                    buf.stop()

        if case['second']:
            # two controllers: only the lifecycle of the source can be predicted
            second.go(controller2, name='controller2')
            for c in case['cmds']:
                if c[0] == 'start':
                    if src.session + 2 < len(case['sessions']):
                        try:
                            buf.start()
                            state['ever'] = True
                        except V.Killed:
                            raise
                        except BaseException as e:
                            if not isinstance(e, tuple(FAULTS.values())):
                                raise
                elif c[0] == 'stop':
                    if state['ever']:
                        buf.stop()
                elif c[0] == 'wait':
                    V.vsleep(c[1])
            second.join()
            if state['ever']:
                buf.stop()
        else:
            for c in case['cmds']:
                do(c)
                if focus == 'lifecycle':
                    check_log(src.log)
            leaving()
            if state['started']:
                do_stop()
        V.vsleep(60.0)
        if focus == 'lifecycle':
            check_log(src.log, final=True)
        opened = {e[1] for e in src.log if e[0] == 'opened'}
        closed = [e[1] for e in src.log if e[0] == 'close']
        if focus in ('lifecycle', 'faults'):
            for ses in sorted(opened):
                if closed.count(ses) != 1:
                    raise Violation(f'session {ses} of the source was closed {closed.count(ses)} times')
        if focus == 'isolation' and not case['second']:
            for i in range(len(readers)):
                do(['drain', i])
        stats['opened'] = len(opened)

    s = V.Scheduler(case['schedule'], max_steps=400_000, max_time=30000.0)
    s.run(main)
    rec.label(*[k for k, v in stats.items() if v])
    if case['second']:
        rec.label('two-controllers')
    return stats
