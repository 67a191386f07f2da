"""The HTML view (C22): what comes from the file cannot become markup."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *

TEXT, TAG, VALUE, BAD = 0, 1, 2, 3
STATES = (0, 1, 2, 3)


@spec(['str'], 'bool')
def inert(s):
    """Free of < > and quotes."""
    if len(s) == 0:
        return True
    c = s[len(s) - 1]
    return inert(s[:len(s) - 1]) and c != '<' and c != '>' and c != '"' and c != "'"


# str() of a float is made of digits, signs, a point and letters
def _ax_float(v):
    return inert(float_str(v))


float_str.axioms = Clause(_ax_float)


@spec(['str'], 'bool')
def plain(s):
    """Free of < and >."""
    if len(s) == 0:
        return True
    c = s[len(s) - 1]
    return plain(s[:len(s) - 1]) and c != '<' and c != '>'


AUTO = dict(kind='str', at=(0, 2), pred=inert, stay='inert_stays', cat='inert_cat',
            prefix=('inert_prefix', 'unopened_prefix'),
            of={'escaped': 'escaped_inert', 'escaped_text': 'escaped_text_plain', 'dec': 'dec_inert', 'zeros': 'zeros_inert', 'spaces': 'zeros_inert',
                'hexlify': 'hex_inert', 'float_str': 'float_inert'})


@spec(['int', 'str'], 'int', inline=True)
def step(m, c):
    """Where one more character leaves a reader of HTML: in text, in a tag, in a quoted value; 3: outside what is allowed."""
    if m == 0:
        return 1 if c == '<' else 0
    if m == 1:
        return 0 if c == '>' else (2 if c == '"' else (3 if c == '<' else 1))
    if m == 2:
        return 1 if c == '"' else (3 if c == '<' or c == '>' else 2)
    return 3


@spec(['str', 'int'], 'int', fold=(STATES, None, 'mode_cat', AUTO))
def mode(s, m):
    """Where a string leaves a reader that starts at m."""
    if len(s) == 0:
        return m
    return step(mode(s[:len(s) - 1], m), s[len(s) - 1])


@spec(['str', 'int'], 'str', fold=(STATES, mode, 'tags_cat', AUTO))
def tags(s, m):
    """What is markup in a string: all that is neither text nor within a quoted value."""
    if len(s) == 0:
        return ''
    k = mode(s[:len(s) - 1], m)
    c = s[len(s) - 1]
    keep = c == '<' or k == 1 or (k == 2 and c == '"') or k == 3
    return tags(s[:len(s) - 1], m) + (c if keep else '')


@lemma({'a': 'str', 'b': 'str', 'm': 'int'}, props=['C22'])
class mode_cat:
    def ensures(a, b, m):
        return mode(a + b, m) == mode(b, mode(a, m))

    def measure(b):
        return len(b)

    def hints(a, b, m):
        return {'ih': implies(len(b) > 0, ih(a, b[:len(b) - 1], m)),
                's': implies(len(b) > 0, (a + b)[:len(a + b) - 1] == a + b[:len(b) - 1] and
                             (a + b)[len(a + b) - 1] == b[len(b) - 1])}


@lemma({'a': 'str', 'b': 'str', 'm': 'int'}, props=['C22'])
class tags_cat:
    def ensures(a, b, m):
        return tags(a + b, m) == tags(a, m) + tags(b, mode(a, m))

    def measure(b):
        return len(b)

    def hints(a, b, m):
        return {'ih': implies(len(b) > 0, ih(a, b[:len(b) - 1], m)),
                'c': implies(len(b) > 0, mode_cat(a, b[:len(b) - 1], m)),
                's': implies(len(b) > 0, (a + b)[:len(a + b) - 1] == a + b[:len(b) - 1] and
                             (a + b)[len(a + b) - 1] == b[len(b) - 1])}


@lemma({'s': 'str', 'm': 'int'}, props=['C22'])
class inert_stays:
    def requires(s, m):
        return (m == 0 and plain(s)) or ((m == 0 or m == 2) and inert(s))

    def ensures(s, m):
        return mode(s, m) == m and tags(s, m) == ''

    def measure(s):
        return len(s)

    def hints(s, m):
        return implies(len(s) > 0, ih(s[:len(s) - 1], m))


@lemma({'s': 'str'}, props=['C22'])
class escaped_inert:
    def ensures(s):
        return inert(escaped(s))

    def measure(s):
        return len(s)

    def hints(s):
        t = escaped(s[:len(s) - 1])
        c = s[len(s) - 1]
        return {'ih': implies(len(s) > 0, ih(s[:len(s) - 1])),
                'a': implies(len(s) > 0 and c == '&', inert_cat(t, '&amp;')),
                'l': implies(len(s) > 0 and c == '<', inert_cat(t, '&lt;')),
                'g': implies(len(s) > 0 and c == '>', inert_cat(t, '&gt;')),
                'q': implies(len(s) > 0 and c == '"', inert_cat(t, '&quot;')),
                'p': implies(len(s) > 0 and c == "'", inert_cat(t, '&#x27;')),
                'o': implies(len(s) > 0, inert_cat(t, c))}


@lemma({'v': 'real'}, props=['C22'])
class float_inert:
    def ensures(v):
        return inert(float_str(v))


@lemma({'a': 'str', 'b': 'str'}, props=['C22'])
class inert_cat:
    def ensures(a, b):
        return implies(inert(a) and inert(b), inert(a + b))

    def measure(b):
        return len(b)

    def hints(a, b):
        return {'ih': implies(len(b) > 0, ih(a, b[:len(b) - 1])),
                's': implies(len(b) > 0, (a + b)[:len(a + b) - 1] == a + b[:len(b) - 1] and
                             (a + b)[len(a + b) - 1] == b[len(b) - 1])}


@lemma({'n': 'int'}, props=['C22'])
class dec_inert:
    def ensures(n):
        return inert(dec(n))

    def measure(n):
        return 0 - 2 * n if n < 0 else n

    def hints(n):
        return {'ih': implies(n >= 10, ih(n // 10)), 'neg': implies(n < 0, ih(0 - n)),
                'c': implies(n >= 10, inert_cat(dec(n // 10), chr(48 + n % 10))),
                'm': implies(n < 0, inert_cat('-', dec(0 - n)))}


@lemma({'n': 'int'}, props=['C22'])
class zeros_inert:
    def ensures(n):
        return inert(zeros(n)) and inert(spaces(n))

    def measure(n):
        return n if n > 0 else 0

    def hints(n):
        return {'ih': implies(n > 0, ih(n - 1)), 'z': implies(n > 0, inert_cat(zeros(n - 1), '0')),
                's': implies(n > 0, inert_cat(spaces(n - 1), ' '))}


@lemma({'s': 'str', 'k': 'int'}, props=['C22'])
class inert_prefix:
    def requires(s, k):
        return 0 <= k

    def ensures(s, k):
        return implies(inert(s), inert(s[:k]))

    def measure(s, k):
        return len(s)

    def hints(s, k):
        n = len(s)
        return {'ih': implies(k < n, ih(s[:n - 1], k)), 's': implies(k < n, s[:n - 1][:k] == s[:k]),
                'a': implies(k >= n, s[:k] == s)}


@lemma({'s': 'str', 'k': 'int'}, props=['C22'])
class unopened_prefix:
    """Any beginning of a text without < leaves the reader in text."""
    def requires(s, k):
        return 0 <= k

    def ensures(s, k):
        return implies('<' not in s, mode(s[:k], 0) == 0 and tags(s[:k], 0) == '')

    def measure(k):
        return k

    def hints(s, k):
        return {'ih': implies(k > 0, ih(s, k - 1)), 'a': implies(k > len(s), s[:k] == s[:k - 1]), 's': implies(k > 0 and k <= len(s), s[:k][:k - 1] == s[:k - 1] and s[:k][k - 1] == s[k - 1]),
                'x': implies(k > 0 and k <= len(s), s == s[:k - 1] + s[k - 1] + s[k:]),
                'c': implies(k > 0 and k <= len(s) and '<' not in s, s[k - 1] != '<')}


@lemma({'s': 'bytes'}, props=['C22'])
class hex_inert:
    """Hexadecimal digits are inert."""
    def ensures(s):
        return inert(hexs(s))

    def measure(s):
        return len(s)

    def hints(s):
        return {'ih': implies(len(s) > 0, ih(s[1:])),
                'a': implies(len(s) > 0, inert_cat(chr(hex_char(s[0] // 16)), chr(hex_char(s[0] % 16)))),
                'd': implies(len(s) > 0, 0 <= s[0] and s[0] <= 255),
                'e': implies(len(s) > 0, inert(chr(hex_char(s[0] // 16))) and inert(chr(hex_char(s[0] % 16)))),
                'c': implies(len(s) > 0, inert_cat(chr(hex_char(s[0] // 16)) + chr(hex_char(s[0] % 16)), hexs(s[1:])))}


@contract('display.build_header', {'filename': 'str'}, 'str', props=['C22'], raises='no')
class build_header_c:
    """The header is the same markup whatever the name of the file is."""
    def ensures(filename, result):
        return {'closed': mode(result, 0) == 0,
                'tags': tags(result, 0) == '<div class=""><pre><a href=""></a></pre></div>'}


@contract('display.add_comment', {'article': tup('int', 'any', 'any', 'bytes')}, 'str', props=['C22'], raises='any')
class add_comment_c:
    """A comment of the file is shown as text: the markup does not depend on it."""
    def ensures(article, result):
        return {'closed': mode(result, 0) == 0,
                'tags': tags(result, 0) == '<div class="" id=""><div><pre class=""><span class=""></span>'
                                           '<span class=""></span></pre></div></div>'}


@contract('display.add_eof', {'article': tup('int', 'any', 'any', 'any')}, 'str', props=['C22'], raises='any')
class add_eof_c:
    def ensures(article, result):
        return {'closed': mode(result, 0) == 0,
                'tags': tags(result, 0) == '<div class="" id=""><div><pre class=""><span class=""></span>'
                                           '<span class=""></span></pre></div></div>'}


@contract('display.add_startxref', {'article': tup('int', 'any', 'any', 'int'), 'index': lst('any'), 'cross': 'any'}, 'str',
          props=['C22'], raises='any')
class add_startxref_c:
    def ensures(article, result):
        t = '<div class="" id=""><div><pre><span class=""></span><span class=""></span><div class="">'
        u = '</div></pre></div></div>'
        return {'closed': mode(result, 0) == 0,
                'tags': tags(result, 0) == (t + u if article[3] == 0 else t + '<a class="" href=""></a>' + u)}


@spec(['str', 'str'], 'bool')
def free(s, x):
    """The character x does not occur."""
    if len(s) == 0:
        return True
    return free(s[:len(s) - 1], x) and s[len(s) - 1] != x


@lemma({'s': 'str'}, props=['C22'])
class plain_is_free:
    def ensures(s):
        return plain(s) == (free(s, '<') and free(s, '>'))

    def measure(s):
        return len(s)

    def hints(s):
        return implies(len(s) > 0, ih(s[:len(s) - 1]))


@lemma({'a': 'str', 'b': 'str', 'x': 'str'}, props=['C22'])
class free_cat:
    def ensures(a, b, x):
        return free(a + b, x) == (free(a, x) and free(b, x))

    def measure(b):
        return len(b)

    def hints(a, b, x):
        return {'ih': implies(len(b) > 0, ih(a, b[:len(b) - 1], x)),
                's': implies(len(b) > 0, (a + b)[:len(a + b) - 1] == a + b[:len(b) - 1] and
                             (a + b)[len(a + b) - 1] == b[len(b) - 1])}


@lemma({'s': 'str', 'a': 'str', 'b': 'str', 'x': 'str'}, props=['C22'])
class replaced_free:
    """Replacing leaves no other characters than those that stay and those put in."""
    def requires(a, b, x):
        return len(a) == 1 and len(x) == 1 and free(b, x)

    def ensures(s, a, b, x):
        return implies(a == x or free(s, x), free(replace_str(s, a, b), x))

    def measure(s):
        return len(s)

    def hints(s, a, b, x):
        n = len(s)
        return {'ih': implies(n > 0, ih(s[:n - 1], a, b, x)),
                'b': implies(n > 0, free_cat(replace_str(s[:n - 1], a, b), b, x)),
                'c': implies(n > 0, free_cat(replace_str(s[:n - 1], a, b), s[n - 1], x)),
                'k': implies(n > 0 and s[n - 1] != x, free(s[n - 1], x))}


@always(replace_str)
def _replace_lemmas(s, a, b):
    r = replace_str(s, a, b)
    return {'l': replaced_free(s, a, b, '<'), 'g': replaced_free(s, a, b, '>'), 'p': plain_is_free(r)}


@lemma({'s': 'str'}, props=['C22'])
class escaped_text_plain:
    def ensures(s):
        return plain(escaped_text(s))

    def measure(s):
        return len(s)

    def hints(s):
        t = escaped_text(s[:len(s) - 1])
        c = s[len(s) - 1]
        return {'ih': implies(len(s) > 0, ih(s[:len(s) - 1])),
                'a': implies(len(s) > 0 and c == '&', plain_cat(t, '&amp;')),
                'l': implies(len(s) > 0 and c == '<', plain_cat(t, '&lt;')),
                'g': implies(len(s) > 0 and c == '>', plain_cat(t, '&gt;')),
                'o': implies(len(s) > 0, plain_cat(t, c))}


@lemma({'a': 'str', 'b': 'str'}, props=['C22'])
class plain_cat:
    def ensures(a, b):
        return implies(plain(a) and plain(b), plain(a + b))

    def measure(b):
        return len(b)

    def hints(a, b):
        return {'ih': implies(len(b) > 0, ih(a, b[:len(b) - 1])),
                's': implies(len(b) > 0, (a + b)[:len(a + b) - 1] == a + b[:len(b) - 1] and
                             (a + b)[len(a + b) - 1] == b[len(b) - 1])}


@lemma({'s': 'str'}, props=['C22'])
class inert_plain:
    def ensures(s):
        return implies(inert(s), plain(s))

    def measure(s):
        return len(s)

    def hints(s):
        return implies(len(s) > 0, ih(s[:len(s) - 1]))


@always(escaped)
def _escaped_lemmas(s):
    return {'i': escaped_inert(s), 'p': inert_plain(escaped(s))}


@always(escaped_text)
def _escaped_text_lemmas(s):
    return escaped_text_plain(s)


# ---- tables of references
ENTRY = tup('any', 'int', 'int', 'int', 'bytes')


@spec([lst(tup('any', 'any', 'any', ENTRY)), 'int'], 'str')
def table_links(table, n):
    """A link for each entry in use."""
    if n <= 0:
        return ''
    return table_links(table, n - 1) + ('' if table[n - 1][3][4] == b'f' else '<a href=""><span class=""></span></a>')


@contract('display.build_xref_table', {'table': lst(tup('any', 'any', 'any', ENTRY)), 'index': 'any'}, 'str', props=['C22'],
          raises='any', name='display.build_xref_table[entries]')
class build_xref_table_c:
    """Each entry in use is a link; what the file has in the place of n or f is text."""
    def ensures(table, result):
        return {'closed': mode(result, 0) == 0, 'tags': tags(result, 0) == table_links(table, len(table))}

    def _inv(table, ret, _k):
        return {'closed': mode(ret, 0) == 0, 'tags': tags(ret, 0) == table_links(table, _k)}
    loops = {0: Loop(_inv)}


@contract('display.build_xref_table', {'table': lst(tup('int', 'int')), 'index': 'any'}, 'str', props=['C22'],
          raises='any', name='display.build_xref_table[subsections]')
class build_xref_table_s:
    def ensures(result):
        return {'closed': mode(result, 0) == 0, 'tags': tags(result, 0) == ''}

    def _inv(ret):
        return {'closed': mode(ret, 0) == 0, 'tags': tags(ret, 0) == ''}
    loops = {0: Loop(_inv)}


XENTRY = tup('any', 'int', 'int', 'int', 'bytes', opt('int'), 'any')


@spec([lst(tup('any', 'any', 'any', XENTRY)), 'int'], 'str')
def stream_links(table, n):
    if n <= 0:
        return ''
    return stream_links(table, n - 1) + ('' if table[n - 1][3][2] == 0 else '<a href=""><span class=""></span></a>')


@contract('display.build_xref_stream', {'table': lst(tup('any', 'any', 'any', XENTRY)), 'index': 'any'}, 'str', props=['C22'],
          raises='any')
class build_xref_stream_c:
    def requires(table):
        return forall(0, len(table), lambda i: table[i][3][4] == b'n' or table[i][3][4] == b'f')

    def ensures(table, result):
        return {'closed': mode(result, 0) == 0, 'tags': tags(result, 0) == stream_links(table, len(table))}

    def _inv(table, ret, _k):
        return {'closed': mode(ret, 0) == 0, 'tags': tags(ret, 0) == stream_links(table, _k)}

    def _hints(table, _k):
        return {'st': inert(table[_k - 1][3][4].decode('latin-1'))}
    loops = {0: Loop(_inv, hints=_hints)}


# ---- navigation
@contract('display.build_nav_objects', {'articles': lst(tup('int', 'any', 'str', 'any'))}, 'str', props=['C22'], raises='any')
class build_nav_objects_c:
    """The map of objects: numbers and types from the file are text."""
    def ensures(articles, result):
        return mode(result, 0) == 0

    def _inv(ret):
        return mode(ret, 0) == 0
    loops = {0: Loop(_inv)}


@contract('display.build_nav_pages', {'pages': lst(tup('ref', 'any')), 'index': lst(lst('any'))}, 'str', props=['C22'], raises='any')
class build_nav_pages_c:
    def requires(index):
        return len(index) >= 1 and forall(0, len(index[-1]), lambda i: index[-1][i] is None or
                                          type(as_dict(index[-1][i])['o_ver']) == int)

    def ensures(pages, result):
        return mode(result, 0) == 0

    def _inv(ret):
        return mode(ret, 0) == 0
    loops = {0: Loop(_inv)}


@contract('graphics.printable_stream_content', {'content_stream': 'bytes', 'escape': 'bool'}, opt('str'), props=['C22'],
          raises='no', name='graphics.printable_stream_content')
class printable_c:
    """Content that is shown has no markup."""
    def ensures(content_stream, escape, result):
        return implies(escape and result is not None, plain(result))
    loops = {0: Loop()}


@contract('display.move_list_item', {'mod_list': lst('str'), 'item': 'str', 'new_pos': 'int'}, lst('str'), props=['C22'], raises='no',
          owned=['mod_list'], modifies=['mod_list'])
class move_list_item_c:
    """The list keeps its length (what it holds does not matter to the view)."""
    def ensures(mod_list_0, result):
        return len(result) == len(mod_list_0)


@spec(['any'], 'bool', inline=True)
def placed(e):
    """An index slot: its position is a number if it has one."""
    d = as_dict(e)
    p = d['abs_pos']
    return e is None or (type(e) == dict and implies('abs_pos' in d, type(p) == int or type(p) == float or p is None))


@contract('display.follow_obj', {'obj': 'any', 'index': lst('any'), 'depth': 'int', 'display_stream': 'bool'}, 'str', props=['C22'],
          raises='any')
class follow_obj_c:
    """Whatever an object holds, its view closes all it opens and no value of the file reaches a tag."""
    def requires(index):
        return forall(0, len(index), lambda i: placed(index[i]))

    def ensures(obj, result):
        return {'closed': mode(result, 0) == 0, 'number': implies(type(obj) == int, inert(result))}

    def _inv(ret):
        return mode(ret, 0) == 0
    loops = {0: Loop(_inv), 1: Loop(_inv)}


STRUCTURE = record('Structure', {'Version': ('str', False), 'Pages': ('any', False), 'Revisions': ('int', False),
                                 'Hybrid': ('bool', False), 'Linearized': ('bool', False)})


@contract('display.build_nav_info', {'structure': STRUCTURE,
                                     'file_size': 'int'}, 'str', props=['C22'], raises='any')
class build_nav_info_c:
    """Version and number of pages come from the file: they are text."""
    def ensures(result):
        return {'closed': mode(result, 0) == 0,
                'tags': tags(result, 0) == '<details class=""><summary class=""><code></code></summary><pre class=""><ul>' +
                '<li class=""></li><li class=""></li><li class=""></li><li class=""></li><li class=""></li><li class=""></li>' +
                '</ul></pre></details>'}


SLOT = record('Slot', {'o_gen': ('int', False), 'o_ver': ('int', False), 'o_num': ('int', False)})
OWNED = record('Owned', {'o_num': ('any', False), 'env_num': ('int', False)})
CROSS = tup('any', opt(tup('int', 'int')), 'any', lst(tup('any', 'int')))


@contract('display.build_obj_header', {'article': tup('int', 'any', 'str', SLOT), 'index': lst(lst(SLOT)), 'cross': dct('int', CROSS)},
          'str', props=['C22'], raises='any', name='display.build_obj_header[top]')
class build_obj_header_c:
    """What precedes an object of the file opens tags with numbers only, and names from the file are text."""
    def ensures(result):
        return mode(result, 0) == 0

    def _inv(ret):
        return mode(ret, 0) == 0
    loops = {0: Loop(_inv)}


@contract('display.build_obj_header', {'article': tup('real', tup('int', 'int', 'int'), 'str', OWNED), 'index': 'none',
                                       'cross': dct('real', CROSS)}, 'str', props=['C22'], raises='any',
          name='display.build_obj_header[embedded]')
class build_emb_header_c:
    """As above for an object of an object stream; its number is read from the file and is escaped."""
    def requires(article):
        return article[2] == 'IND_OBJ'

    def ensures(result):
        return mode(result, 0) == 0

    def _inv(ret):
        return mode(ret, 0) == 0
    loops = {1: Loop(_inv)}
