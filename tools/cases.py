"""The cases of every property: which harness entry, under which configuration."""
class Case:
    def __init__(s, name, h, entry, params=None, opts=(), time=60, cost=1.0):
        s.name = name; s.h = h; s.entry = entry; s.params = params or {}; s.opts = list(opts); s.time = time; s.cost = cost
REFS = {"h_bgold": ["golden"]}
INFO = {}
GEN = {}
def cases(prop, tier):
    out = []; GEN[prop](lambda *a, **k: out.append(Case(*a, **k)), tier); return out
def far(add, name, kd, i, opts, blk=0, **kw):
    """calls with lengths that do not fit 16, 31 or 32 bits (h_far)"""
    for e, l in ((16, 0), (16, blk or 5), (31, 0), (32, 0), (32, blk or 5), (32, -(blk or 7)), (33, blk or 1)):
        for a in (0, blk or 3):
            if kd == 14 and e > 31: continue # the length is an unsigned int there
            if a and (kd > 8 or kd in (1, 4) or (e, l) not in ((16, 0), (32, 0), (32, blk or 5))): continue
            add('%s-e%d%+d%s' % (name, e, l, '-after' if a else ''), 'h_far', 'far_len', dict(kw, kd=kd, i=i, e=e, l=l, a=a), opts, 60, .3)
import cases_block
import cases_hash
import cases_stream
import cases_mac
import cases_ae
import cases_kdf
import cases_util
import cases_x

import info
