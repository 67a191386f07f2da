"""Squashing: renumbering (C15)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.c12 import slot_ok, ref_at

ANYS = lst('any')
NUMS = ('set', opt('int'))


@spec([ANYS, NUMS, 'int'], 'bool', inline=True)
def stays(cur, excluded, i):
    return cur[i] is not None and 'DELETED' not in as_dict(cur[i]) and i not in excluded


@spec([ANYS, NUMS, 'int'], 'int')
def rank(cur, excluded, n):
    """How many objects below number n stay."""
    if n <= 1:
        return 0
    return rank(cur, excluded, n - 1) + (1 if stays(cur, excluded, n - 1) else 0)


@lemma({'cur': ANYS, 'excluded': NUMS, 'n': 'int', 'm': 'int'}, props=['C15'])
class rank_grows:
    def requires(n, m):
        return n <= m

    def ensures(cur, excluded, n, m):
        return 0 <= rank(cur, excluded, n) and rank(cur, excluded, n) <= rank(cur, excluded, m)

    def measure(cur, excluded, n, m):
        return m if m > 0 else 0

    def hints(cur, excluded, n, m):
        return {'m': implies(n < m and m > 1, ih(cur, excluded, n, m - 1)),
                'n': implies(n == m and m > 1, ih(cur, excluded, n - 1, n - 1))}


@spec(['any', 'int', 'ref'], 'bool', inline=True)
def renumbered(e, num, old):
    d = as_dict(e)
    return type(e) == dict and d['o_num'] == num and d['o_gen'] == 0 and d['o_ver'] == 0 and d['doc_ver'] == 0 \
        and d['OLD_REF'] == old and 'abs_pos' not in d and 'env_num' not in d and 'DELETED' not in d


@contract('docstruct.defragment_map', {'current_index': ANYS, 'excluded': NUMS}, tup(ANYS, dct('ref', 'ref')),
          props=['C15'], raises='no', ghosts={'g': 'int'})
class defragment_map_c:
    """Objects that stay get the numbers 1, 2, ... in order, with generation 0; the map gives each its new reference."""
    def requires(current_index, excluded):
        cur = current_index
        return {'slots': forall(1, len(cur), lambda i: slot_ok(cur[i])),
                'num': forall(1, len(cur), lambda i: implies(cur[i] is not None, 'o_num' in as_dict(cur[i]) and
                                                             type(as_dict(cur[i])['o_num']) == int and
                                                             as_dict(cur[i])['o_num'] == i))}

    def ensures(current_index, excluded, g, result):
        cur = current_index
        new, mapping = result
        r = rank(cur, excluded, g + 1)
        old = ref_at(cur, g)
        ok = 1 <= g and g < len(cur) and stays(cur, excluded, g)
        return {'count': len(new) == 1 + rank(cur, excluded, len(cur)),
                'entry': implies(ok, renumbered(new[r], r, old)),
                'moved': implies(ok and old != complex(0, r), old in mapping and mapping[old] == complex(0, r)),
                'same': implies(ok and old == complex(0, r), old not in mapping)}

    def _inv(current_index, excluded, g, new_index, mapping, nb, _k):
        cur = current_index
        r = rank(cur, excluded, g + 1)
        old = ref_at(cur, g)
        ok = 1 <= g and g < len(cur) and stays(cur, excluded, g)
        done = ok and g < _k
        return {'nb': nb == rank(cur, excluded, _k) and nb >= 0, 'count': len(new_index) == 1 + nb,
                'entry': implies(done, renumbered(new_index[r], r, old)),
                'moved': implies(done and old != complex(0, r), old in mapping and mapping[old] == complex(0, r)),
                'same': implies(ok and (old == complex(0, r) or not done), old not in mapping)}

    def _hints(current_index, excluded, g, _k, nb, new_index, new_index_pre0, nb_pre0):
        cur = current_index
        r = rank(cur, excluded, g + 1)
        return {'m': implies(g < _k - 1, rank_grows(cur, excluded, g + 1, _k - 1)), 'g': rank_grows(cur, excluded, g, g + 1), 'old': new_index[:nb_pre0 + 1] == new_index_pre0,
                'prev': implies(1 <= r and r <= nb_pre0, new_index[r] == new_index_pre0[r]),
                'r': implies(1 <= g and g == _k - 1 and stays(cur, excluded, g), r == nb_pre0 + 1 and nb == nb_pre0 + 1),
                'last': implies(1 <= g and g == _k - 1 and stays(cur, excluded, g), renumbered(new_index[nb], nb, ref_at(cur, g)))}
    loops = {0: Loop(_inv, hints=_hints, types={'new_index': ANYS, 'mapping': dct('ref', 'ref')})}
