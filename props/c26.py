"""ContextualizeCall: callables that are context managers."""
import functools
import inspect

from hypothesis import strategies as st

import gen
from harness import HarnessError, Violation

ID = 'C26'
RULE = (
    'A case is a kind of callable with attributes, up to three layers of wrapping (each with its own enter and exit '
    'functions of several forms, some raising or swallowing, or forwarding to the instance), and a list of uses: calls, '
    'with-blocks (nested, raising), attribute access, explicit enter/exit, refused wrappings. Calls received, results and '
    'exceptions are compared with a model. Non-trivial if a with-block was used and a layer has own functions.'
)
CASES = {'quick': 4500, 'thorough': 200000}

EXC = {'ValueError': ValueError, 'KeyError': KeyError, 'StopIteration': StopIteration, 'KeyboardInterrupt': KeyboardInterrupt}
FORMS = ['lambda', 'star', 'exact', 'defaults', 'partial', 'method', 'object']
KINDS = ['func', 'lambda', 'partial', 'bound', 'object', 'class', 'builtin', 'reader']
RESULTS = [None, False, True, 0, 1, '', 'x', [], 'callable', 'object']

layers = st.fixed_dictionaries(
    {
        'mode': gen.weighted((4, st.just('both')), (1, st.just('none')), (1, st.just('enter')), (1, st.just('exit')), (3, st.just('instance'))),
        'form': st.sampled_from(FORMS),
        'xform': st.sampled_from(FORMS),
        'enter': st.sampled_from(RESULTS),
        'exit': st.sampled_from(RESULTS),
        'enter_raises': st.sampled_from([None] * 6 + list(EXC)),
        'exit_raises': st.sampled_from([None] * 6 + list(EXC)),
    }
)


@st.composite
def uses(draw, depth, tier):
    value = gen.weighted((3, st.integers(-3, 9)), (1, st.sampled_from([None, False, '', 'text', ()])))
    args = st.lists(value, max_size=3)
    leaf = gen.weighted(
        (4, st.tuples(st.just('call'), st.integers(0, 3), args, st.dictionaries(st.sampled_from(['a', 'b', 'extra']), value, max_size=2)).map(list)),
        (3, st.tuples(st.just('attr'), st.integers(0, 3), st.sampled_from(['__name__', '__doc__', 'tag', 'late', 'change', 'missing', 'sig', '__module__', '__wrapped__', 'repr'])).map(list)),
        (2, st.tuples(st.just('bad'), st.integers(0, 3), st.sampled_from(['func', 'enter', 'exit']), st.sampled_from(['int', 'str', 'none', 'noargs', 'few', 'kwonly', 'list'])).map(list)),
        (1, st.tuples(st.just('raw'), st.integers(0, 3), st.sampled_from(['enter', 'exit', 'exit_exc', 'both'])).map(list)),
    )
    if depth <= 0:
        return draw(st.lists(leaf, max_size=3))
    block = st.tuples(
        st.just('with'), st.integers(0, 3), uses(depth - 1, tier), st.sampled_from([None, None, *EXC])
    ).map(list)
    return draw(st.lists(gen.weighted((2, leaf), (3, block)), min_size=1, max_size=4 if tier == 'quick' else 7))


@st.composite
def strategy(draw, tier):
    return {
        'kind': draw(st.sampled_from(KINDS)),
        'raises': draw(st.sampled_from([None, None, None, *EXC])),
        'layers': draw(st.lists(layers, min_size=1, max_size=3)),
        'inst_enter': draw(st.sampled_from(['self', 'other', 'ValueError'])) if draw(st.booleans()) else 'self',
        'inst_exit': draw(st.sampled_from([None, None, True, False, 'x', 'KeyError'])),
        'uses': draw(uses(2, tier)),
    }


def run(case, rec):
    from stream2py import util
    from stream2py.source_reader import QuickSourceReader

    Wrap = util.ContextualizeCall
    log = []  # what really happened
    exp = []  # what the model says
    kind = case['kind']
    raises = EXC[case['raises']] if case['raises'] else None
    stats = dict(blocks=0, swallowed=0, calls=0, instance=0, refused=0, own=0, nested=int(len(case['layers']) > 1))
    OTHER = object()

    def body(*a, **k):
        log.append(('call', a, tuple(sorted(k.items()))))
        if raises:
            raise raises('call')
        return ('result', a, tuple(sorted(k.items())))

    def inst_enter(self):
        log.append(('inst_enter',))
        if case['inst_enter'] in EXC:
            raise EXC[case['inst_enter']]('inst_enter')
        return self if case['inst_enter'] == 'self' else OTHER

    def inst_exit(self, *exc):
        log.append(('inst_exit', exc))
        if case['inst_exit'] in EXC:
            raise EXC[case['inst_exit']]('inst_exit')
        return case['inst_exit']

    class Ctx:
        def method(self, *a, **k):
            """the method"""
            return body(*a, **k)

        method.tag = 'method-tag'
        __enter__ = inst_enter
        __exit__ = inst_exit

    class Reader(QuickSourceReader):
        def read(self, *a, **k):
            return body(*a, **k)

        __enter__ = inst_enter
        __exit__ = inst_exit

    instance = None
    if kind == 'func':

        def base(*a, **k):
            """the function"""
            return body(*a, **k)

        base.tag = 'func-tag'
    elif kind == 'lambda':
        base = lambda a=0, *args, b=2, **k: body(a, *args, b=b, **k)  # noqa: E731
        base.tag = ['tag']
    elif kind == 'partial':
        base = functools.partial(body, 7, extra=1)
        base.tag = 'partial-tag'
    elif kind in ('bound', 'reader'):
        instance = Ctx() if kind == 'bound' else Reader()
        base = instance.method if kind == 'bound' else instance.read
    elif kind == 'object':

        class Callable:
            """a callable"""

            def __init__(self):
                self.tag = 'object-tag'

            def __call__(self, *a, **k):
                return body(*a, **k)

        base = Callable()
    elif kind == 'class':

        class base:
            tag = 'class-tag'

            def __init__(self, *a, **k):
                body(*a, **k)

    else:
        base = max

    def plain_call(a, k):
        """What calling the base itself does."""
        return base(*a, **k)

    # -- functions given to the wrappers
    def make(i, which, spec):
        result = spec[which]
        exc = EXC[spec[f'{which}_raises']] if spec[f'{which}_raises'] else None

        def act(obj, *args):
            log.append((which, i, id(obj), args))
            if exc:
                raise exc(f'{which} {i}')
            return act if result == 'callable' else OTHER if result == 'object' else result

        form = spec['form' if which == 'enter' else 'xform']
        if which == 'enter':
            if form == 'star':
                f = lambda *a: act(*a)  # noqa: E731
            elif form == 'exact':
                f = lambda obj: act(obj)  # noqa: E731
            elif form == 'defaults':
                f = lambda obj, more=0: act(obj)  # noqa: E731
            elif form == 'partial':
                f = functools.partial(lambda pre, obj: act(obj), 'pre')
            elif form == 'method':
                f = type('H', (), {'go': lambda self, obj: act(obj)})().go
            elif form == 'object':
                f = type('H', (), {'__call__': lambda self, obj: act(obj)})()
            else:
                f = lambda self: act(self)  # noqa: E731
        else:
            if form == 'star':
                f = lambda *a: act(*a)  # noqa: E731
            elif form == 'exact':
                f = lambda obj, t, v, tb: act(obj, t, v, tb)  # noqa: E731
            elif form == 'defaults':
                f = lambda obj, t=1, v=2, tb=3, more=4: act(obj, t, v, tb)  # noqa: E731
            elif form == 'partial':
                f = functools.partial(lambda pre, obj, *e: act(obj, *e), 'pre')
            elif form == 'method':
                f = type('H', (), {'go': lambda self, obj, *e: act(obj, *e)})().go
            elif form == 'object':
                f = type('H', (), {'__call__': lambda self, obj, t, v, tb: act(obj, t, v, tb)})()
            else:
                f = lambda self, *errs: act(self, *errs)  # noqa: E731
        value = act if result == 'callable' else OTHER if result == 'object' else result
        return f, value, exc

    # -- the wrappers and their models
    stack = []  # per layer: wrapper, what it wraps, model of enter, model of exit
    for i, spec in enumerate(case['layers']):
        target = stack[-1][0] if stack else base
        mode = spec['mode']
        if mode == 'instance' and instance is None:
            mode = 'both'
        if mode == 'instance':
            w = util.contextualize_with_instance(target)

            def m_enter():
                exp.append(('inst_enter',))
                if case['inst_enter'] in EXC:
                    return None, EXC[case['inst_enter']], 'inst_enter'
                return (instance if case['inst_enter'] == 'self' else OTHER), None, None

            def m_exit(args):
                exp.append(('inst_exit', args))
                if case['inst_exit'] in EXC:
                    return None, EXC[case['inst_exit']], 'inst_exit'
                return case['inst_exit'], None, None

            stats['instance'] += 1
        else:
            kw = {}
            ef = xf = None
            if mode in ('both', 'enter'):
                ef = make(i, 'enter', spec)
                kw['enter_func'] = ef[0]
            if mode in ('both', 'exit'):
                xf = make(i, 'exit', spec)
                kw['exit_func'] = xf[0]
            if ef and xf and spec['form'] == 'exact':
                w = Wrap(target, ef[0], xf[0])  # by position
            else:
                w = Wrap(target, **kw)
            stats['own'] += bool(kw)

            def m_enter(ef=ef, i=i, target=target):
                if ef is None:
                    return target, None, None
                exp.append(('enter', i, id(target), ()))
                return (None, ef[2], f'enter {i}') if ef[2] else (ef[1], None, None)

            def m_exit(args, xf=xf, i=i, target=target):
                if xf is None:
                    return None, None, None
                exp.append(('exit', i, id(target), args))
                return (None, xf[2], f'exit {i}') if xf[2] else (xf[1], None, None)

        if not callable(w) or not hasattr(type(w), '__enter__') or not hasattr(type(w), '__exit__'):
            raise Violation(f'the wrapper {w!r} is no callable context manager')
        stack.append((w, target, m_enter, m_exit))
    if log:
        raise Violation(f'wrapping called {log}')

    def same(a, b):
        return type(a) is type(b) and a == b if not isinstance(a, (list, dict)) else a is b

    def settle(what):
        if len(log) != len(exp):
            raise Violation(f'{what}: happened {log}, expected {exp}')
        for a, b in zip(log, exp):
            if a != b and not (len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))):
                raise Violation(f'{what}: happened {a}, expected {b}')
        del log[:], exp[:]

    base.__dict__ if kind not in ('bound', 'reader', 'builtin') else None

    def outcome(f):
        """-> (value, exception, calls)"""
        n = len(log)
        try:
            r = f()
            return r, None, log[n:]
        except BaseException as e:
            return None, e, log[n:]

    late = [0]

    def do(u):
        k = u[0]
        w, target, m_enter, m_exit = stack[u[1] % len(stack)]
        if k == 'call':
            stats['calls'] += 1
            a, kw = tuple(u[2]), u[3]
            r1, e1, c1 = outcome(lambda: w(*a, **kw))
            r2, e2, c2 = outcome(lambda: plain_call(a, kw))
            if c1 != c2:
                raise Violation(f'calling the wrapper called {c1}, the function itself {c2}')
            if type(e1) is not type(e2) or str(e1) != str(e2):
                raise Violation(f'calling the wrapper raised {e1!r}, the function itself {e2!r}')
            if e1 is None and kind != 'class' and not same(r1, r2):
                raise Violation(f'calling the wrapper gave {r1!r}, the function itself {r2!r}')
            if kind == 'class' and e1 is None and type(r1) is not base:
                raise Violation(f'calling the wrapper gave {r1!r}')
            del log[len(log) - len(c1) - len(c2) :]
        elif k == 'attr':
            name = u[2]
            if name == 'late':
                if kind in ('func', 'lambda', 'partial', 'object', 'class'):
                    late[0] += 1
                    # a new name: delegated to the wrapped callable
                    setattr(base, f'late{late[0]}', late[0])
                    if getattr(w, f'late{late[0]}', None) != late[0]:
                        raise Violation('an attribute set later is not delegated')
                return
            if name == 'change':
                if kind in ('func', 'lambda', 'partial', 'object', 'class'):
                    late[0] += 1
                    n = 'tag' if late[0] % 2 or late[0] < 4 else f'late{late[0] // 2}'
                    setattr(base, n, ('changed', late[0]))
                    if getattr(w, n, None) != ('changed', late[0]):
                        raise Violation(f'attribute {n} is {getattr(w, n, None)} after it was changed to {getattr(base, n)}')
                return
            if name == 'sig':
                try:
                    want = inspect.signature(base)
                except ValueError:
                    return
                if kind != 'class' and inspect.signature(w) != want:
                    raise Violation(f'the signature is {inspect.signature(w)}, that of the function {want}')
                return
            if name == '__wrapped__':
                if w.__wrapped__ is not target:
                    raise Violation(f'__wrapped__ is {w.__wrapped__!r}, not {target!r}')
                return
            if name == 'repr':
                repr(w)
                return
            if name == '__doc__' and not hasattr(base, '__doc__'):
                return
            r1, e1, _ = outcome(lambda: getattr(w, name))
            r2, e2, _ = outcome(lambda: getattr(base, name))
            if e2 is not None and name in ('__name__', '__module__'):
                return  # what an instance has otherwise
            if type(e1) is not type(e2) or not (r1 is r2 or r1 == r2):
                raise Violation(f'attribute {name} is {r1!r} / {e1!r}, of the function itself {r2!r} / {e2!r}')
        elif k == 'bad':
            what, arg = u[2], u[3]
            if what == 'func' and arg in ('noargs', 'few', 'kwonly'):
                return
            if what == 'enter' and arg in ('few', 'kwonly'):
                return
            bad = dict(
                int=5, str='no', none=None, list=[], noargs=lambda: None, few=lambda a, b: None, kwonly=lambda a, b, tb=None: None
            )[arg]
            args = dict(
                func=lambda: Wrap(bad), enter=lambda: Wrap(target, enter_func=bad), exit=lambda: Wrap(target, exit_func=bad)
            )[what]
            r, e, _ = outcome(args)
            if not isinstance(e, TypeError):
                raise Violation(f'{arg} as {what} function: {r!r} / {e!r} instead of TypeError')
            stats['refused'] += 1
            settle('a refused wrapping')
        elif k == 'raw':
            if u[2] in ('enter', 'both'):
                v, ee, msg = m_enter()
                r, e, _ = outcome(lambda: w.__enter__())
                if type(e) is not (ee or type(None)) or (ee and msg not in str(e)):
                    raise Violation(f'entering raised {e!r}, expected {ee}')
                if ee is None and r is not v:
                    raise Violation(f'entering gave {r!r}, expected {v!r}')
            if u[2] != 'enter':
                x = KeyError('given') if u[2] == 'exit_exc' else None
                args = (KeyError, x, None) if x else (None, None, None)
                v, ee, msg = m_exit(args)
                r, e, _ = outcome(lambda: w.__exit__(*args))
                if type(e) is not (ee or type(None)) or (ee and msg not in str(e)):
                    raise Violation(f'leaving raised {e!r}, expected {ee}')
                if ee is None and r is not v:
                    raise Violation(f'leaving gave {r!r}, expected {v!r}')
            settle('entering and leaving by hand')
        elif k == 'with':
            stats['blocks'] += 1
            v, ee, msg = m_enter()
            entered = False
            inner = EXC[u[3]]('body') if u[3] else None
            seen = None
            try:
                with w as got:
                    entered = True
                    if ee is not None:
                        raise Violation('the block is entered although entering raised')
                    if got is not v:
                        raise Violation(f'entering gave {got!r}, expected {v!r}')
                    settle('entering')
                    for x in u[2]:
                        do(x)
                    if inner:
                        raise inner
            except Violation:
                raise
            except BaseException as e:
                seen = e
            if not entered:
                if type(seen) is not ee or msg not in str(seen):
                    raise Violation(f'entering raised {seen!r}, expected {ee}')
                settle('a failed entering')
                return
            # the traceback object cannot be predicted
            for i, ev in enumerate(log):
                if ev[0] in ('exit', 'inst_exit'):
                    t = ev[-1]
                    if (t[-1] is not None) != bool(inner):
                        raise Violation(f'leaving was given the traceback {t[-1]}')
                    log[i] = (*ev[:-1], (*t[:-1], None))
            v, xe, msg = m_exit((type(inner), inner, None) if inner else (None, None, None))
            settle('leaving')
            if xe is not None:
                if type(seen) is not xe or msg not in str(seen):
                    raise Violation(f'leaving raised {seen!r}, expected {xe}')
            elif inner is not None and not v:
                if seen is not inner:
                    raise Violation(f'the block raised {inner!r}, but {seen!r} came out')
            elif seen is not None:
                raise Violation(f'{seen!r} came out, expected nothing')
            stats['swallowed'] += bool(inner is not None and seen is None)
        else:
            raise HarnessError(k)

    for u in case['uses']:
        do(u)
    rec.label(kind, *[k for k, v in stats.items() if v])
    rec.nontrivial = bool(stats['blocks'] and (stats['own'] or stats['instance']))
