"""A program with streams that are left in some state when it ends (run by props/c34.py).

usage: endprog.py CASE.json
"""
import json
import os
import sys
import threading
import time
from contextlib import ExitStack

import stream2py
from stream2py.simply import mk_stream_buffer
from stream2py.stream_source import StreamSource

case = json.loads(sys.argv[1])
forever = threading.Event()


def say(text):
    os.write(1, (text + '\n').encode())


def functions(i, s):
    state = dict(n=0)

    def read():
        state['n'] += 1
        if s['read'] == 'blocks':
            forever.wait()
        elif s['read'] == 'sleeps':
            time.sleep(1000)
        elif s['read'] == 'fails' and state['n'] > 3:
            raise OSError('read fails')
        elif s['read'] == 'exits' and state['n'] > 3:
            sys.exit(5)
        elif s['read'] == 'none' and state['n'] > 3:
            return None
        elif s['read'] == 'slow':
            time.sleep(0.02)
        elif s['read'] == 'busy':
            time.sleep(0)
        return state['n']

    def close():
        say(f'closed {i}')
        if s['close'] == 'fails':
            raise OSError('close fails')
        if s['close'] == 'hangs' and s['kind'] != 'stream_source':  # (opening it again would wait for it)
            forever.wait()

    return read, close


def mk(i, s):
    read_, close_ = functions(i, s)

    class Methods:
        def open(self):
            say(f'opened {i}')

        def read(self):
            return read_()

        def close(self):
            close_()

        def key(self, data):
            return data

    if s['kind'] == 'helper':
        return mk_stream_buffer(
            read_stream=lambda opened: read_(),
            open_stream=lambda: say(f'opened {i}'),
            close_stream=lambda opened: close_(),
            key=lambda data: data,
            maxlen=s['maxlen'],
        )
    if s['kind'] == 'stream_source':

        class Src(Methods, StreamSource):
            info = {}

        return Src().configure_buffer(maxlen=s['maxlen'])

    class Src(Methods, stream2py.SourceReader):
        pass

    return stream2py.StreamBuffer(Src(), maxlen=s['maxlen'], auto_drop=s.get('auto_drop', True))


def consume(how, reader, buf):
    if how == 'iterate':
        for _ in reader:
            pass
    elif how == 'blocking':
        while reader.read(blocking=True) is not None:
            pass
    elif how == 'buffer':
        for _ in buf:
            pass


class Unexpected(Exception):
    pass


def main():
    keep = []

    def within(f):
        """Calls f in a thread of the wanted kind."""
        if case.get('starter', 'main') == 'main':
            return f()
        out = []

        def go():
            try:
                out.append(f())
            except BaseException as e:
                out.append(e)

        t = threading.Thread(target=go, daemon=case['starter'] == 'daemon')
        t.start()
        t.join()
        if isinstance(out[0], BaseException):
            raise out[0]
        return out[0]

    with ExitStack() as stack:
        for i, s in enumerate(case['streams']):
            x = mk(i, s)
            keep.append(x)
            source = s['kind'] == 'stream_source'
            if s['use'] == 'never':
                continue
            if s['use'] == 'with':
                if source:
                    reader = within(lambda: stack.enter_context(x.open_reader()))
                elif s['kind'] == 'helper':
                    x = within(lambda: stack.enter_context(x))
                else:
                    within(lambda: stack.enter_context(x))
            elif s['kind'] == 'helper':
                section, x = x, within(x.__enter__)
                keep.append(x)
            elif not source:
                within(x.start)
            for how in s['consumers']:
                reader = within(lambda: x.open_reader() if source else x.mk_reader())
                keep.append(reader)
                if how != 'idle':
                    threading.Thread(target=consume, args=(how if not source else 'iterate', reader, x), daemon=True).start()
            if s['use'] == 'stopped':
                if s['kind'] == 'helper':
                    section.__exit__(None, None, None)
                elif not source:
                    x.stop()
        time.sleep(case['after'])
        if case['forget']:
            keep.clear()
            x = reader = section = None
        say('END')
        if case['end'] == 'exit':
            sys.exit(3)
        if case['end'] == 'error':
            raise Unexpected
        if case['end'] == 'interrupt':
            raise KeyboardInterrupt


if __name__ == '__main__':
    main()
