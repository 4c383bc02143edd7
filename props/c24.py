"""Source readers as context managers and iterators; the quick source reader."""
import itertools

from hypothesis import strategies as st

import gen
import vworld as V
from harness import HarnessError, Violation
from streams import ATOMS, FAULTS

ID = 'C24'
RULE = (
    'A case is a kind of source reader (plain, quick, quick with its own validity test and/or no-data hook), a script of '
    'values (falsy ones too) and gaps, and a list of nested uses: entering and leaving in several ways, iterating for a '
    'number of items, reading, changing the pause. Non-trivial if at least 2 items were iterated and a gap was met.'
)
CASES = {'quick': 6000, 'thorough': 150000}


@st.composite
def uses(draw, depth, tier):
    leaf = gen.weighted(
        (6, st.integers(1, 6).map(lambda n: ['iterate', n])),
        (2, st.just(['read'])),
        (2, st.sampled_from([0.001, 0.25, 3, 0.5]).map(lambda t: ['pause', t])),
        (1, st.sampled_from([['closed'], ['info'], ['stamp'], ['key']])),
        (1, st.sampled_from([['other', None], ['other', None], ['other', 0.5], ['other', 2]])),
    )
    if depth <= 0:
        return draw(st.lists(leaf, max_size=4))
    block = st.tuples(
        st.sampled_from(['with', 'with', 'methods', 'open_close']), uses(depth - 1, tier), st.sampled_from([None, None, 'Fault', 'KeyboardInterrupt', 'StopIteration'])
    ).map(lambda t: ['block', *t])
    return draw(st.lists(gen.weighted((3, leaf), (2, block)), min_size=1, max_size=5 if tier == 'quick' else 10))


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(0, 20 if tier == 'quick' else 60))
    script = draw(st.lists(gen.weighted((2, st.none()), (4, st.integers(0, len(ATOMS) - 1))), min_size=n, max_size=n))
    return {
        'cls': draw(st.sampled_from(['plain', 'plain_flag', 'quick', 'quick_valid', 'quick_hook', 'quick_both'])),
        'script': script,
        'mod': draw(st.integers(1, 3)),
        'uses': draw(uses(2, tier)),
        'gives': draw(st.sampled_from([None, True, 0, 'done'])),  # of open and close
        'unit': draw(st.sampled_from([None, None, None, 1e6, 1000, 1, 1e9])),  # of time stamps
        'fail_open': draw(st.sampled_from([None, None, None, 1, 2, 3])),
    }


def run(case, rec):
    from stream2py import SourceReader
    from stream2py.source_reader import QuickSourceReader

    cls = case['cls']
    quick = cls.startswith('quick')
    script = [None if a is None else ATOMS[a] for a in case['script']]
    stats = dict(items=0, gaps=0, blocks=0, raised=0, failed=0)

    def main():
        log = []
        feed = iter(script)
        state = dict(pos=0, pause=0.001, closed=True, reads=[], opens=0)

        def within(what):
            # it is not closed before close() did it, nor open before open() did it
            if src.closed is not state['closed']:
                raise Violation(f'closed is {src.closed} while {what}() is running, before it was {state["closed"]}')

        class Base:
            def read(self):
                if self is other:
                    theirs['read'] += 1
                    return None if theirs['read'] % 2 else 'theirs'
                log.append(('read', V.vnow()))
                state['pos'] += 1
                if quick and src.read_idx is not None:
                    src.read_idx += 1  # what it is for
                return script[state['pos'] - 1] if state['pos'] <= len(script) else 'more'

        if quick:

            class Src(Base, QuickSourceReader):
                if cls in ('quick_valid', 'quick_both'):

                    def is_valid_data(self, data):
                        log.append(('valid?', data))
                        return data is None or (ATOMS_INDEX(data) % case['mod'] == 0)

                if cls in ('quick_hook', 'quick_both'):

                    def when_no_data(self, data=None):
                        log.append(('hook', data))
                        V.vsleep(0.125)

        else:

            class Src(Base, SourceReader):
                def open(self):
                    within('open')
                    state['opens'] += 1
                    if case['fail_open'] == state['opens']:
                        raise FAULTS['OSError']('open fails')
                    log.append(('open', V.vnow()))
                    if cls == 'plain_flag':
                        self._closed = False
                    return case['gives']

                def close(self):
                    log.append(('close', V.vnow()))
                    within('close')
                    if cls == 'plain_flag':
                        self._closed = True
                    return case['gives']

                def key(self, data):
                    return data

        def ATOMS_INDEX(data):
            return next((i for i, a in enumerate(ATOMS) if a is data), 0)

        def valid(x):
            if cls in ('quick_valid', 'quick_both'):
                return x is None or ATOMS_INDEX(x) % case['mod'] == 0
            return x is not None

        if case['unit']:
            Src.timestamp_seconds_to_unit_conversion = case['unit']
        unit = case['unit'] or 1e6
        src, other = Src(), Src()  # the other one is never opened
        theirs = dict(read=0, pause=0.001)

        def closed(what):
            if quick or cls == 'plain_flag' or what in ('context', 'opening failed'):
                if src.closed is not state['closed']:
                    raise Violation(f'closed is {src.closed}, expected {state["closed"]} ({what})')

        closed('context')
        if quick and (src.open_time is not None or src.read_idx is not None):
            raise Violation('a quick source reader looks opened before it was')

        def count(ev):
            return len([e for e in log if e[0] == ev])

        def opened(now):
            state['closed'] = False
            if quick:
                if src.read_idx != 0:
                    raise Violation(f'read_idx is {src.read_idx} after opening')
                us = (V._EPOCH + V.vnow()) * unit
                if type(src.open_time) is not int or abs(src.open_time - us) > 2e-2 * unit + 1:
                    raise Violation(f'open_time is {src.open_time}, the time is {us:.0f}')
                if src.info['open_time'] != src.open_time or src.info['open_instance'] != str(src):
                    raise Violation(f'info is {src.info}')

        def do(use, it):
            k = use[0]
            if k == 'iterate':
                t = V.vnow()
                n0, l0 = state['pos'], len(log)
                got = list(itertools.islice(iter(src), use[1]))
                # what the model yields from here
                exp, bad, pos = [], [], n0
                while len(exp) < use[1]:
                    x = script[pos] if pos < len(script) else 'more'
                    pos += 1
                    (exp if valid(x) else bad).append(x)
                if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
                    raise Violation(f'iterating from {script[n0:]} gave {got}, expected {exp}')
                if state['pos'] != pos:
                    raise Violation(f'iterating consumed {state["pos"] - n0} values instead of {pos - n0}')
                hook = [e[1] for e in log[l0:] if e[0] == 'hook']
                if cls in ('quick_hook', 'quick_both'):
                    if len(hook) != len(bad) or any(a is not b for a, b in zip(hook, bad)):
                        raise Violation(f'the no-data hook got {hook}, expected {bad}')
                if cls in ('quick_valid', 'quick_both'):
                    asked = [e[1] for e in log[l0:] if e[0] == 'valid?']
                    if len(asked) < pos - n0:
                        raise Violation('the validity test was not asked about every value')
                wait = V.vnow() - t
                want = len(bad) * (0.125 if cls in ('quick_hook', 'quick_both') else state['pause'])
                if not want - 1e-3 <= wait <= want + 0.05:
                    raise Violation(f'{len(bad)} gaps took {wait:.4f}s, expected {want:.4f}s')
                stats['items'] += len(got)
                stats['gaps'] += len(bad)
            elif k == 'read':
                x = src.read()
                exp = script[state['pos'] - 1] if state['pos'] <= len(script) else 'more'
                if x is not exp:
                    raise Violation(f'read() gave {x!r}')
            elif k == 'pause':
                src.set_sleep_time_on_iter_none(use[1])
                state['pause'] = use[1]
            elif k == 'closed':
                closed('on request')
            elif k == 'info':
                if not quick and src.info != {}:
                    raise Violation(f'default info is {src.info}')
                if src.sleep_time_on_read_none_s is not None:
                    raise Violation('default pause of a source is not None')
            elif k == 'stamp':
                us = (V._EPOCH + V.vnow()) * unit
                t = src.get_timestamp()
                if type(t) is not int or abs(t - us) > 2e-2 * unit + 1:
                    raise Violation(f'get_timestamp() is {t}, the time is {us:.0f}')
            elif k == 'other':
                if use[1]:
                    theirs['pause'] = use[1]
                    other.set_sleep_time_on_iter_none(use[1])
                if other.closed is not True or (quick and (other.open_time is not None or other.read_idx is not None)):
                    raise Violation('a source reader that was never opened looks opened')
                if cls in ('plain', 'plain_flag', 'quick'):
                    t = V.vnow()
                    got = list(itertools.islice(iter(other), 2))
                    took = V.vnow() - t - 2 * theirs['pause']  # in C32 others may come in between
                    if got != ['theirs'] * 2 or not -1e-3 <= took <= 0.05 * theirs['pause'] + 0.05:
                        raise Violation(
                            f'another source reader gives {got} within {V.vnow() - t:.4f}s, its pause is {theirs["pause"]}'
                        )
            elif k == 'key':
                for a in ATOMS:
                    if src.key(a) is not a:
                        raise Violation(f'the key of {a!r} is {src.key(a)!r}')
            elif k == 'block':
                stats['blocks'] += 1
                o, c = count('open'), count('close')
                nested = count('open') - count('close')

                def entered(x=None):
                    opened(None)
                    if not quick and (count('open') != o + 1):
                        raise Violation(f'entering opened the source {count("open") - o} times')
                    closed('on request' if use[1] == 'open_close' else 'context')

                def left():
                    state['closed'] = True
                    if not quick and count('close') - count('open') != c - o:
                        raise Violation(f'leaving left {count("open") - count("close")} open, before it were {o - c}')
                    if not quick and count('open') == o:
                        raise Violation('never opened')
                    closed('on request' if use[1] == 'open_close' else 'context')

                fault = FAULTS[use[3]] if use[3] else None
                try:
                    if use[1] == 'with':
                        with src as s:
                            if s is not src:
                                raise Violation(f'entering gave {s!r}')
                            entered()
                            for u in use[2]:
                                do(u, it)
                            if fault:
                                raise fault('body')
                    elif use[1] == 'methods':
                        if src.enter() is not src:
                            raise Violation('enter() gives something else')
                        entered()
                        for u in use[2]:
                            do(u, it)
                        if src.exit(*((fault, fault('body'), None) if fault else (None, None, None))):
                            raise Violation('exit() swallows exceptions')
                        fault = None
                    else:
                        if not quick and cls != 'plain_flag':
                            return
                        src.open()
                        entered()
                        for u in use[2]:
                            do(u, it)
                        src.close()
                        fault = None
                except FAULTS['OSError'] as e:
                    if str(e) != 'open fails' or o != count('open'):
                        raise
                    stats['failed'] += 1
                    closed('opening failed')
                    return
                except (FAULTS[use[3]] if use[3] else ()) as e:
                    if str(e) != 'body':
                        raise
                    stats['raised'] += 1
                else:
                    if fault:
                        raise Violation(f'{use[3]} was swallowed')
                left()
            else:
                raise HarnessError(k)

        for u in case['uses']:
            do(u, 0)

    V.Scheduler({'gran': 'sync'}, max_steps=1_000_000, max_time=1e6).run(main)
    rec.label(cls, *[k for k, v in stats.items() if v])
    rec.nontrivial = stats['items'] >= 2 and stats['gaps'] >= 1
