"""Revisions as they are written (C07)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.c02 import serialized


@contract('filestruct.serialize_fragment', {'num': 'int', 'o_gen': 'int', 'obj': 'any'}, 'bytes',
          props=['C07'])
class serialize_fragment_c:
    """'num gen obj', the object, 'endobj', each on a line of its own."""
    def ensures(num, o_gen, obj, result):
        return result == (dec(num) + ' ' + dec(o_gen)).encode('ascii') + b' obj\n' + serialized(obj, 0) + b'\nendobj\n'


ENV = record('Envelope', {'/FirstLine': (lst('int'), True), '/First': ('any', True), '/N': ('any', True),
                          '/Type': ('any', True), '/Length': ('any', True)})
EnvStream = objtype('Stream', {'entries': ENV, 'stream': 'bytes', 'encoded': opt('bytes')})


@contract('filestruct.get_pos_in_stream', {'envelope': EnvStream}, 'int', props=['C07'], raises='no')
class get_pos_in_stream_c:
    """Rank of the object added last."""
    def requires(envelope):
        return '/FirstLine' in envelope.entries

    def ensures(envelope, result):
        return result == len(envelope.entries['/FirstLine']) // 2 - 1


@contract('filestruct.append_to_stream_fragment', {'num': 'int', 'obj': 'any', 'envelope': EnvStream}, EnvStream,
          props=['C07'])
class append_to_stream_fragment_c:
    """One more object: its number and offset at the end of the first line, its bytes at the end of the content;
    the given object stream is left alone."""
    def ensures(num, obj, envelope, result):
        e, r = envelope.entries, result.entries
        started = '/FirstLine' in e
        old = e['/FirstLine'] if started else []
        content = envelope.stream if started else b''
        return {'line': '/FirstLine' in r and r['/FirstLine'] == old + [num, len(content)],
                'content': result.stream == content + serialized(obj, 0) + b'\n',
                'fresh': implies(not started, '/First' not in r and '/N' not in r),
                'rest': iff('/Type' in r, '/Type' in e) and implies('/Type' in e, r['/Type'] == e['/Type'])}
