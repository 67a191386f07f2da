"""Tokenizer (C01)."""
from pyvc.api import *
from pyvc.core import tup, opt
from contracts.base import *


@contract('objects.next_line', {'bdata': 'bytes', 'start_pos': 'int'}, tup(opt('int'), opt('int')), props=['C01'],
          raises='no')
class next_line_c:
    def requires(bdata, start_pos):
        return 0 <= start_pos and start_pos <= len(bdata)

    def ensures(bdata, start_pos, result):
        i, j = result
        return {
            'both': iff(i is None, j is None),
            'span': implies(i is not None, start_pos <= i and i < j and j < len(bdata)),
        }

    def _inv(bdata, start_pos, cursor, start_found, i):
        return {'b': start_pos <= cursor and cursor <= len(bdata),
                'f': implies(start_found, start_pos <= i and i < cursor)}

    def _var(bdata, cursor):
        return len(bdata) - cursor
    loops = {0: Loop(_inv, _var)}
