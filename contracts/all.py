"""All contract modules, and the notes that go into the evidence."""
import importlib
import os

for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _f.endswith('.py') and _f not in ('__init__.py', 'all.py'):
        importlib.import_module('contracts.' + _f[:-3])

# 'proof' where the functions the statement is about are under contract (what is left: OUTSIDE); otherwise 'other'
LEVEL = {p: 'other' for p in ('C06', 'C07', 'C08', 'C09', 'C10', 'C12', 'C14', 'C15', 'C16', 'C17', 'C19', 'C21')}

# what the statement covers and no contract does: decided by the bounded cross-check only
OUTSIDE = {
    'C01': ['objects.parse_obj (trusted: a function of its arguments)'],
    'C02': ['objects.parse_obj, dedicated_type, forge_stream: the parsing half of the round trip'],
    'C03': ['text.encode_text_string', 'code points of UTF-16 text (the codec is Python\'s)'],
    'C04': ['the FlateDecode and ASCII85 codecs themselves (zlib, base64: assumed inverse of each other)',
            'filestruct.forge_stream, update_internal_stream_length'],
    'C05': ['predictors other than Up (not implemented by the library)'],
    'C06': ['objects.parse_xref_table_raw', 'filestruct.parse_xref_table, parse_xref_stream, '
            'build_xref_sequence, build_index_from_xref_sequence'],
    'C07': ['filestruct.build_revision_byte_stream: the offsets it records'],
    'C08': ['filestruct.format_xref_stream', 'that the elements given to format_xref_table are sorted and complete'],
    'C09': ['api.writefile', 'docstruct.commit'],
    'C10': ['page edits, squash, concat, commit, rewind: their frames'],
    'C11': ['the branch of memoize_obj_in_cache that reads an object stream', 'objects.parse_object_stream'],
    'C12': ['docstruct.commit, writefile, loading: the round trip itself'],
    'C13': ['docstruct.remove_pages, keep_pages, dependencies, page_tree_nodes'],
    'C14': ['docstruct.concat (its pieces deep_ref_retarget and deep_ref_detect are proved)'],
    'C15': ['docstruct.squash, group_obj_into_stream (their pieces defragment_map, deep_ref_* are proved)'],
    'C16': ['docstruct.rewind (its pieces copy_doc, in_use, changes are proved)'],
    'C17': ['api.add_text_annotation (the object updates it is made of are proved)'],
    'C18': ['operators that the state does not depend on', 'float rounding (numbers are treated as reals)'],
    'C19': ['filestruct.file_object_map, check_index_targets, check_not_indexed_objects'],
    'C20': ['filestruct.hexdump, filters.ascii_hexdump_printable'],
    'C21': ['text.apply_tounicode, apply_encoding, docstruct.prepare_font, build of the ToUnicode map'],
    'C22': ['display.build_html: the assembly of the page from the proved parts'],
    'C23': ['layout.simplify_horizontal_text_elements, merge and typical_line_spacing (a trusted bound)'],
}
NOTE = {p: 'Not under contract, cross-checked on random inputs only (bounded): ' + '; '.join(x) + '.'
        for p, x in OUTSIDE.items()}
NA = {}
ASSUME = {
    '*': [
        'Python integers are mathematical integers (they are); floats are treated as reals unless a contract says '
        'otherwise',
        'MemoryError, RecursionError and signals are not modelled',
        'a recursive function without a measure is proved partially correct (it may not end on a cyclic structure)',
        'the order in which a dictionary is iterated is a function of its content (specs key_at, nkeys, key_pos)',
    ],
    'C03': ['bytes.decode and str.encode for UTF-8 and UTF-16 are the ones of Python'],
    'C04': ['zlib.decompress(zlib.compress(x)) == x and base64.a85decode(base64.a85encode(x)) == x'],
    'C09': ['a byte access function answers as the window specification says (proved in C20)'],
    'C11': ['a byte access function gives the same answer to the same request',
            'object streams that hold objects in use are not themselves edited'],
    'C13': ['spec functions over the page tree are well founded: the tree has no cycle',
            'filling the cache is not visible to the traversal (C11 proves it of the known and plain cases)'],
    'C17': ['what a reference leads to is the state of the object (the state is what update_object[state] proves)',
            'no page and no /Rotate value of another page is the same object as the page looked at'],
    'C20': ['the file model: seek and read deliver the bytes of one unchanging file'],
    'C22': ['html.escape works character by character', 'os.path.basename returns a suffix of its argument',
            'str of a float holds no markup character'],
    'C23': ['list.sort with a key orders by that key and permutes', 'str(float) is a function of the number'],
}
