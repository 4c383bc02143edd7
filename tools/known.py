#!/usr/bin/env python3
"""Writes known_findings.jsonl from the fix commits of /repo. usage: python3 tools/known.py"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> (properties whose checks reported it, what failed)
FIXED = {
    "read() honours the reader's default peek": ('C03', 'a reader made with peek=True moved its cursor on read()'),
    'strict read of exactly the available number of items': ('C03', 'read(n, strict_n=True) raised ValueError although exactly n items were available'),
    'tail() of an empty buffer raises the documented ValueError': ('C05', 'tail() of an empty buffer raised IndexError and ignored ignore_no_item_found'),
    'range(only_new_items=True) does not acquire the reader lock twice': ('C13', 'range(only_new_items=True) deadlocked when a writer was waiting, and used another snapshot (C12) and the read defaults (C04)'),
    'auto_drop=False works with an unbounded buffer': ('C08', 'auto_drop=False with maxlen=None stopped the stream with a TypeError'),
    'readers do not end before delivering data that came in just before the stream stopped': ('C02', 'iteration, next and blocking reads ended although undelivered items were buffered'),
    'source_reader_info is available while the buffer is still empty': ('C11', 'source_reader_info was None after start while nothing was buffered'),
    'a restart waits for the previous run to be done with the source': ('C09', 'a restart opened the source while the previous run was still reading or closing it'),
    'a failed start leaves the stream stopped and the source closed': ('C10', 'after a failed start is_running was True, and an opened source whose info failed was never closed'),
    'next(buffer) reads from the current run after a restart': ('C11', 'next(buffer) returned items of the previous session after a restart without stop'),
    'items with equal keys are not compared with each other': ('C16', 'sorted containers compared items with equal keys: TypeError, or not in the order given'),
    'assigning a SortedDeque key keeps its maxlen': ('C18', 'assigning a key to a sorted deque lost its maximum length'),
    'copied, cleared and resized sorted collections remember that no key was given': ('C18', 'copies of a sorted collection without key could not be pickled'),
    'a StreamSource makes readers of the reader_cls it was given': ('C20', 'a StreamSource ignored its reader_cls'),
    'a closed StreamSource is reopened by opening another reader': ('C19', 'opening a reader after the last one was closed raised or gave a stopped reader'),
    'closing a reader twice does not count as closing two readers': ('C19', 'closing one reader twice closed the source under another open reader'),
    'StreamSource.get_timestamp finds its conversion factor': ('C20', 'StreamSource.get_timestamp() raised AttributeError'),
    'readers made by a StreamBuffer can be closed': ('C06', 'closing a reader made by a StreamBuffer, or leaving its with-block, raised TypeError'),
    'mk_stream_buffer does not enumerate None as data': ('C23', 'None from the read function became an item (number, None), so an idle source flooded the buffer'),
    'exit functions that cannot take the exception info are rejected': ('C26', 'any callable was accepted as exit function'),
    'wrapping a wrapped callable keeps the given enter and exit functions': ('C26', 'wrapping a ContextualizeCall lost the enter and exit functions given'),
    'an attached reader shows the information of the source it reads': ('C28', 'an attached reader showed the information of its former stream'),
    'the HTTP source sends the request it was configured with': ('C25', 'method and body of the request were not sent, and a text body was rejected'),
    'the HTTP source counts the bytes read and has no data after the end of the response': ('C25', 'empty chunks without end after the response, n_bytes_read stayed 0'),
    'the HTTP source decodes characters that are split between chunks': ('C25', 'UnicodeDecodeError if a chunk ends within a character'),
    'read_configs can read all sections': ('C29', 'read_configs(section=None) raised ValueError'),
}
EXTRA = {}


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    out = []
    seen = set()
    for line in log.splitlines():
        h, _, subject = line.partition(' ')
        if not subject.startswith('fix: '):
            continue
        prop, what = FIXED[subject[5:]]
        seen.add(subject[5:])
        out.append(dict(status='fixed', property=prop, commit=h, what=what, text=f'fixed: property={prop} {h} {what}'))
    assert seen == set(FIXED), set(FIXED) - seen
    with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
        for d in out + list(EXTRA.values()):
            f.write(json.dumps(d) + '\n')
    print(len(out), 'fixed')


if __name__ == '__main__':
    main()
