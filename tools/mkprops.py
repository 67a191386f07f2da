"""Regenerates properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})

O, F, FS, D, A, G, T, X = ("pdfsyntax/objects.py", "pdfsyntax/filters.py", "pdfsyntax/filestruct.py",
    "pdfsyntax/docstruct.py", "pdfsyntax/api.py", "pdfsyntax/graphics.py", "pdfsyntax/text.py", "pdfsyntax/display.py")

prop("C01", "Tokenizer returns exact lexical spans and always advances",
 "Asking for the next token of any byte buffer from any position inside it terminates and returns a span that lies inside the buffer at or after that position, and whose end is past the position whenever input remains. "
 "A recognised name, number, keyword, comment, string, array or dictionary token covers exactly one complete PDF token beginning at the first significant byte: names, numbers and keywords end just before the first white-space or delimiter byte, comments before the end of line, a literal string at the parenthesis balancing its opening one (a backslash escapes the byte after it), a hexadecimal string at the first '>', arrays and dictionaries at their matching closer. "
 "Parentheses, brackets and angle brackets that occur inside nested strings or comments never change where an array or dictionary ends.",
 ["inputs"], "every byte buffer and every start position in it",
 "22 hand-picked short buffers are tokenized; nesting depth, escapes, truncation and delimiters inside strings are unbounded and only three such cases are sampled.",
 [O], [("next_token state machine", O), ("next_line", O)], ["next_token(buffer, start) -> (begin, end, type)"])

prop("C02", "Serialize then parse gives the same object back",
 "For every PDF object built from booleans, integers, finite reals, names, literal and hexadecimal strings, indirect references (with any generation number), and arrays and dictionaries of these nested to any depth, parsing its serialization yields an equal object. "
 "The same holds for a stream: its dictionary and its encoded bytes come back unchanged whatever bytes the stream holds, including none, line endings at the end, or the word endstream, as long as its dictionary has a correct direct /Length.",
 ["inputs"], "every representable object tree and every stream byte content",
 "Tests parse a dozen literals and serialize two; no test round-trips anything, and the claim is over unboundedly nested values and arbitrary bytes.",
 [O], [("to_str / serialize", O), ("parse_obj / replace_ref / dedicated_type", O), ("next_token", O)],
 ["parse_obj(serialize(x))"])

prop("C03", "String objects decode to the text they denote",
 "Decoding a PDF string object as text gives the character sequence the PDF specification assigns to it: in literal strings backslash escapes (named ones, one to three octal digits, line continuation, ignored unknown escapes) are resolved, hexadecimal strings accept either letter case, white space and an odd digit count, strings starting with the byte-order mark FE FF are UTF-16BE, and all other bytes map through the PDFDocEncoding table. "
 "Decoding is total on syntactically complete string objects: it never fails on a valid one.",
 ["inputs"], "every literal or hexadecimal string token",
 "Eight fixed strings are decoded; no test varies escape length, letter case, digit parity or the 256-entry table.",
 [T], [("text_string / unescape_literal_string", T), ("PDFDOC_CHARSET / decode_pdfdoc", T)], ["text_string(bytes)"])

prop("C04", "Stream filters are inverse of each other and total",
 "For every byte content and every chain of supported filters (Flate, ASCIIHex, ASCII85, in any order and number, given as a name or an array), decoding the encoded content with the same stream dictionary (without predictor parameters) returns the original content. "
 "A chain is decoded filter by filter in the order listed, each step consuming the previous step's output. "
 "Data that cannot be decoded, or a filter that is not supported, gives the documented placeholder content instead of an exception.",
 ["inputs"], "every byte content, every list of filter names",
 "No test exercises any filter at all.",
 [F, O], [("encode_stream / decode_stream / asciihex", F), ("forge_stream", O)], ["encode_stream, decode_stream, forge_stream"])

prop("C05", "PNG Up predictor decoding restores every row",
 "For every row width and every number of rows, decoding data encoded with the PNG Up predictor gives back the original rows concatenated: each output byte is the sum modulo 256 of the encoded byte and the decoded byte above it, the first row is taken against zeros, and the leading tag byte of each row is dropped.",
 ["inputs"], "every column count and every encoded byte string, including a truncated last row",
 "No test calls the predictor; the claim is inductive over rows and columns.",
 [F], [("decode_predictor", F), ("decode_stream /DecodeParms", F)], ["decode_predictor(data, 12, columns)"])

prop("C06", "Cross-reference sections are read entry for entry",
 "Reading a cross-reference table or stream yields, for each row and in order, exactly the object number assigned by the subsection the row falls in and the fields stored in that row: byte offset and generation for in-use objects, containing object stream and index for compressed objects; free entries are never reported as locations. "
 "For streams, field widths of any size are honoured, including a zero-width type field, which means in use.",
 ["inputs"], "every list of subsections, every field-width triple and every row content",
 "One three-row table and three /Index expansions are tested; no xref stream is.",
 [O, FS], [("parse_xref_table_raw / parse_xref_stream_raw / expand_xref_index", O), ("parse_xref_table / parse_xref_stream", FS)],
 ["parse_xref_table_raw, parse_xref_stream_raw, parse_xref_table, parse_xref_stream"])

prop("C07", "Every written revision addresses its objects exactly",
 "In every revision the library writes, each in-use cross-reference entry for a plain object gives the byte offset in the final file at which that object's header 'N G obj' starts, each compressed entry gives the containing object stream and the position of the object within it, startxref gives the offset of the cross-reference section, and /Prev the offset of the previous one. "
 "Every added or changed object of the revision, and only those, appears in it once, and every deleted one is entered as free.",
 ["inputs", "histories"], "every set of additions, updates and deletions, every number of stacked revisions, table and stream cross-references",
 "No test writes a file or looks at written bytes.",
 [FS, D], [("build_revision_byte_stream", FS), ("format_xref_table / format_xref_stream", FS), ("commit / revision_index", D)],
 ["bytes produced by commit/writefile"], [("counter", "file offset of the next block", "build_revision_byte_stream"), ("bdata", "bytes of a closed revision", "Doc.data[i]")])

prop("C08", "Written cross-reference sections are well formed",
 "Every cross-reference table the library writes consists of subsections whose header gives the first object number and exact number of the consecutive entries below it, every entry is exactly 20 bytes long, and every number in the revision's change set is covered exactly once in increasing order. "
 "Every cross-reference stream it writes has field widths large enough for every value stored, an /Index that enumerates exactly its rows, and free entries of both kinds form one circular list through object 0.",
 ["inputs"], "every sorted list of entries, every offset size",
 "No test formats a cross-reference section; widths change at powers of 256 and subsection runs are unbounded.",
 [FS], [("format_xref_table", FS), ("format_xref_stream", FS), ("circular_deleted", FS)], ["written xref bytes"])

prop("C09", "Saving appends: earlier bytes are never altered",
 "A file written after any sequence of edits and commits on an opened document starts with the bytes of the original file up to the end of its last revision, unchanged, followed by the bytes of each revision committed since, each unchanged from when it was committed. "
 "Committing without changes adds nothing.",
 ["inputs", "histories"], "every opened file and every sequence of edits, commits and rewinds",
 "No test writes a file; the claim is over unbounded histories of revisions.",
 [A, D, FS], [("writefile", A), ("commit / copy_doc / revision_index / merge_fdata", D), ("eof_cut", FS)], ["writefile output"])

prop("C10", "Operations never modify the document they are given",
 "Applying any editing operation (updating, adding or deleting objects, rotating, selecting, removing or concatenating pages, annotating, filtering, compressing, squashing, committing, rewinding) to a document leaves that document observably unchanged: its trailer, its objects, its pages, its pending changes and its revision history read the same before and after. "
 "Values returned by read access can be modified freely without affecting the document, and no call's result depends on which other documents were processed before.",
 ["inputs", "histories"], "every document, every operation and every interleaving of operations on shared ancestors",
 "No test compares a document before and after an operation; aliasing shows only for particular shapes and sequences.",
 [D, A, FS, O], [("copy_doc shallow copies", D), ("get_object deep copy", D), ("update_object / add_object", D), ("flat_page_tree inherited attributes", D)],
 ["doc.trailer(), get_object, changes, pages, flat_page_tree"])

prop("C11", "Reading an object always gives its latest state",
 "After any sequence of additions, updates, deletions and reads, reading an object returns the value most recently written to it in that document, or the value stored in the file if it was never written, and a deleted object reads as missing. "
 "The result does not depend on which other objects were read before, nor on whether objects are stored plainly or inside object streams.",
 ["inputs", "histories"], "every document and every sequence of writes and reads",
 "Tests read objects of one uncompressed file without modifying it; order-dependent caching needs a history to show.",
 [D], [("memoize_obj_in_cache", D), ("get_object / update_object / add_object", D)], ["get_object after histories"],
 [("cache", "memoized or modified objects by number", "Doc.cache")])

prop("C12", "A saved document reopens as the same document",
 "Writing a document with pending or committed edits and opening the result gives a document with the same pages in the same order, the same trailer root and info, and an equal value for every object in use; deleted objects stay deleted.",
 ["inputs", "histories"], "every supported document (tables, streams, object streams) and every edit history",
 "No test saves and reopens a document.",
 [A, D, FS, O], [("writefile / doc_constructor", A), ("commit", D), ("build_xref_sequence / build_index_from_xref_sequence", FS)], ["readfile(writefile(doc))"])

prop("C13", "Page lists follow the page tree and selection is exact",
 "The list of pages is the left-to-right order of the leaves of the page tree, each with the attributes inherited from its own ancestors, the nearest ancestor winning, and nothing else. "
 "Keeping, removing or slicing pages yields a document whose pages are exactly the selected ones in their original order with unchanged content, whose page count equals the number of pages in every tree node, and in which no object a remaining page needs was deleted.",
 ["inputs", "histories"], "every page tree shape, every page selection, every chain of selections",
 "The only page test lists the single page of one file.",
 [D, A], [("flat_page_tree / pages", D), ("remove_pages / keep_pages / __getitem__", D), ("dependencies", D)], ["flat_page_tree, pages, number_pages, keep_pages, remove_pages, doc[...]"])

prop("C14", "Concatenation keeps both documents intact",
 "Concatenating two documents gives the pages of the first followed by those of the second, with the page count the sum of both, each page having the same effective attributes and the same content as in its source. "
 "Objects of the receiving document keep their numbers and, except for its catalog and the root of its page tree, their values; every reference in imported objects, including those in stream dictionaries, leads to the imported copy of its target, and later page operations on the result keep its counts correct.",
 ["inputs"], "every pair of documents and either target side",
 "No test concatenates documents.",
 [D, O], [("concat", D), ("deep_ref_retarget", O), ("squash / defragment_map", D)], ["concat(a, b), a + b"])

prop("C15", "Squashing and compressing lose nothing",
 "Squashing a document, or compressing it and reopening the result, yields a single-revision document with the same pages and, up to one renumbering of objects applied to every reference, the same value for every reachable object; stream contents decode to the same bytes. "
 "The renumbering is one to one and its numbers are consecutive from 1.",
 ["inputs", "histories"], "every document: gaps and deletions in numbering, several revisions, object streams",
 "No test squashes or compresses a document.",
 [D, A, O], [("squash / defragment_map", D), ("deep_ref_retarget", O), ("compress / apply_filter / group_obj_into_stream", A)], ["squash(doc), compress(doc)"])

prop("C16", "Rewinding restores the previous revision",
 "Rewinding a document gives the document as it stood at the end of the previous revision: every object, the trailer root and the list of pages read as they did then, including objects updated, added or deleted since. "
 "Edits made after a rewind build on that state.",
 ["histories"], "every number of revisions and every content of them, opened from file or created in memory",
 "No test rewinds.",
 [D], [("rewind / copy_doc", D), ("commit", D), ("changes / in_use", D)], ["rewind(doc)"])

prop("C17", "Page edits change exactly what they are asked to",
 "Rotating by d degrees adds d modulo 360 to the effective rotation of each selected page (all when none is selected), taking inherited rotation into account, and changes no other page and no other attribute. "
 "Adding a text annotation appends one annotation carrying exactly the given text to the chosen page, keeping existing annotations whether they are stored directly or by reference, and changes nothing else.",
 ["inputs"], "every document, angle, page selection, annotation text and page shape",
 "No test rotates or annotates.",
 [A], [("rotate / page_layouts", A), ("add_text_annotation", A)], ["rotate, add_text_annotation"])

prop("C18", "Content streams become the exact operator sequence and state",
 "Parsing a content stream (inline images excepted) yields its commands in order, every operand and operator exactly once, operands attached to the operator that follows them. "
 "Executing the commands maintains the transformation and text matrices as the PDF specification defines them: concatenation, save and restore, text positioning and line moves with the current leading, for any sequence of commands with balanced saves and restores.",
 ["inputs"], "every token sequence and every command sequence",
 "One three-command stream is parsed; no matrix or state is tested.",
 [G], [("parse_stream_content", G), ("multiply_matrices / trm / apply_command", G)], ["parse_stream_content, apply_command"])

prop("C19", "The file map tiles the file and its index checks are exact",
 "The file map lists the regions of a file in order, the first starting at 0 and each next one starting where the previous ended, without overlap or gap, as far as the file can be interpreted, and mapping always terminates. "
 "The index check reports exactly the cross-reference entries that do not lead to an object of that number, generation and place, and exactly the objects that no entry leads to.",
 ["inputs"], "every byte string; every set of regions and entries",
 "No test maps a file or runs the index checks.",
 [FS, O], [("file_object_map", FS), ("parse_region / parse_indirect_obj", O), ("check_index_targets / check_not_indexed_objects", FS)], ["file_object_map, check_index_targets, check_not_indexed_objects"])

prop("C20", "Byte access windows and hex dumps are faithful",
 "For every data source and access mode, a request for n bytes at a position (counted from the end when negative, to the end when n is -1) returns a buffer, an index into it and a count such that the bytes found there are exactly those of the source at that position, never beyond its end. "
 "A hex dump shows every requested byte exactly once, in order, under its true offset.",
 ["inputs"], "every source content, position, length and mode",
 "Seven requests are tested, none at a non-zero position in file mode.",
 [FS, D], [("bdata_provider", FS), ("bdata_length / bdata_all / hexdump", FS), ("merge_fdata", D)], ["bdata_provider(...)(pos, n), hexdump"])

prop("C21", "Font maps translate every code as declared",
 "Showing text with a font that has a ToUnicode map translates each character code to exactly the Unicode string the map declares for it through single or range entries, in order, and codes that are not declared to nothing. "
 "The glyph width used for a code is the one the font declares for it, or the declared default.",
 ["inputs"], "every map, width table and code sequence",
 "No test uses a font.",
 [T, D], [("apply_tounicode / tokenize_string / apply_encoding", T), ("prepare_w / prepare_widths", D)], ["apply_tounicode, prepare_w, prepare_widths"])

prop("C22", "The HTML view never lets file content become markup",
 "Whatever a file contains, everything taken from it appears in the generated HTML view as inert text: no byte of the file or character of its name can open, close or alter an HTML tag or attribute.",
 ["inputs"], "every file content and file name",
 "No test generates the HTML view.",
 [X, G], [("follow_obj / add_comment / build_nav_objects / build_header", X), ("printable_stream_content", G)], ["build_html output"])

prop("C23", "Spatial text output keeps every fragment in reading order",
 "The spatial text of a page contains the text of every positioned non-blank fragment exactly once, lines from top to bottom and fragments within a line from left to right, for any set of fragments.",
 ["inputs"], "every list of positioned fragments",
 "No test lays out text.",
 ["pdfsyntax/layout.py"], [("basic_spatial_layout", "pdfsyntax/layout.py")], ["basic_spatial_layout"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
