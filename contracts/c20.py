"""Byte access functions and the hex dump (C20)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.fdata import *

FOUR = tup(opt('bytes'), opt('int'), opt('int'), 'int')
File = objtype('File', {'content': 'bytes', 'pos': 'int'})



@contract('filestruct.bdata_provider.single_load', {'@bdata': 'bytes', 'start_pos': opt('int'), 'length': 'int'}, FOUR,
          props=['C20'], raises='no')
class single_load_c:
    def requires(start_pos, length):
        return length >= -1 and implies(start_pos is None, length == -1)

    def ensures(bdata, start_pos, length, result):
        buf, i, o, m = result
        return {'length-only': implies(start_pos is None, buf is None and i is None and o is None and m == len(bdata)),
                'window': implies(start_pos is not None, buf is not None and i is not None and o is not None
                                  and window(bdata, start_pos, length, buf, i, o, m))}


@contract('filestruct.bdata_provider.continuous_load', {'@file_obj': File, 'start_pos': opt('int'), 'length': 'int'},
          FOUR, props=['C20'], raises='no', modifies=['file_obj'])
class continuous_load_c:
    def requires(file_obj, start_pos, length):
        return length >= -1 and implies(start_pos is None, length == -1) and file_obj.pos >= 0

    def ensures(file_obj, file_obj_0, start_pos, length, result):
        buf, i, o, m = result
        src = file_obj_0.content
        return {'length-only': implies(start_pos is None, buf is None and i is None and o is None and m == len(src)),
                'window': implies(start_pos is not None, buf is not None and i is not None and o is not None
                                  and window(src, start_pos, length, buf, i, o, m)),
                'content': file_obj.content == src}


@contract('docstruct.merge_fdata.composite_fdata',
          {'@fdata': 'fdata', '@index': 'int', '@bdata': 'bytes', 'start_pos': opt('int'), 'length': 'int'}, FOUR,
          props=['C20', 'C09'], raises='no')
class composite_fdata_c:
    """The source of the composite: what lies before the index, then the new bytes."""
    def requires(fdata, index, start_pos, length):
        return length >= -1 and implies(start_pos is None, length == -1) and 0 <= index and index <= len(as_source(fdata))

    def ensures(fdata, index, bdata, start_pos, length, result):
        buf, i, o, m = result
        src = as_source(fdata)[:index] + bdata
        return {'length-only': implies(start_pos is None, buf is None and i is None and o is None and m == len(src)),
                'window': implies(start_pos is not None, buf is not None and i is not None and o is not None
                                  and window(src, start_pos, length, buf, i, o, m))}


@contract('filestruct.bdata_length', {'bdata': 'fdata'}, 'int', props=['C20'], raises='no')
class bdata_length_c:
    def ensures(bdata, result):
        return result == len(as_source(bdata))
