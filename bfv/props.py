"""The properties: which harnesses over which definitions decide each one."""
from . import corpus, ops, ops2
from .harness import H
from .model import *


class Prop:
    level = 'translation_validation'

    def __init__(self, pid, gen, desc, defs=None, bounds=None):
        self.id = pid
        self.gen = gen
        self.desc = desc
        self.defs = defs
        self.bnd = bounds or {}

    def harnesses(self, tier, seed):
        ds = self.defs(tier, seed) if self.defs else corpus.corpus(tier, seed)
        return [(d, self.gen(d, tier)) for d in ds]

    def bounds(self, tier, groups):
        b = {
            'programs': '%d bitfield definitions (hand-written corners plus pseudo-random ones, see corpus.py)' %
                        len(groups),
            'inputs': 'every value of the bitfield state and of every argument (all bits symbolic)',
            'largest_backing_bits': max([d.N for _, d, _ in groups] or [0]),
            'outside': 'definitions not in the corpus; big-endian or non-64-bit targets',
        }
        b.update(self.bnd)
        return b

    def matches_known(self, e, h, r):
        want = e.get('labels')
        return want is None or sorted(want) == sorted(r.labels)


P = {}


def prop(pid, desc, defs=None, bounds=None):
    def deco(g):
        P[pid] = Prop(pid, g, desc, defs, bounds)
        return g
    return deco


@prop('C01', 'field set/get round trip and isolation')
def c01(d, tier):
    return [h for h in ops.field_ops(d) if h.tags & {'get', 'set', 'setget'}]


@prop('C02', 'layout constants')
def c02(d, tier):
    return ops.const_ops(d)


@prop('C03', 'checked setters')
def c03(d, tier):
    return [h for h in ops.field_ops(d) if 'checked_set' in h.tags] + \
        [h for h in ops.builder_ops(d) if 'checked_with' in h.tags]


@prop('C04', 'whole-value conversions')
def c04(d, tier):
    return [h for h in ops.from_ops(d) if 'from_def' not in h.tags] + ops.into_ops(d) + ops.roundtrip_ops(d)


@prop('C05', 'slices')
def c05(d, tier):
    return ops.slice_ops(d)


@prop('C06', 'defaults')
def c06(d, tier):
    return ops.new_ops(d) + [h for h in ops.from_ops(d) if 'from_def' in h.tags] + \
        [h for h in ops.write_ops(d) if 'write_def' in h.tags] + \
        [h for h in ops.clear_ops(d) if 'default' in h.op]


@prop('C08', 'single bit operations')
def c08(d, tier):
    return ops.bit_ops(d)


def range_defs(tier, seed):
    """quick: one definition per distinct protection layout of the same backing"""
    L = corpus.corpus(tier, seed, n_quick=44)
    if tier == 'thorough':
        return L
    seen = set()
    big = {}
    out = []
    for d in L:
        k = (d.bty, d.heap, ops.W(d), ops.HID(d), 'setget' in d.off)
        if k in seen:
            continue
        seen.add(k)
        if d.N >= 64:
            c = big.get(d.bty, 0) + 1
            big[d.bty] = c
            if c > (6 if d.N <= 64 else 4):
                continue
        out.append(d)
    return out


@prop('C09', 'range operations', defs=range_defs)
def c09(d, tier):
    return ops.range_ops(d, full_offsets=24 if tier == 'quick' else 80)


@prop('C10', 'whole write operations')
def c10(d, tier):
    return ops.write_ops(d)


@prop('C11', 'clear operations')
def c11(d, tier):
    return ops.clear_ops(d)


@prop('C12', 'invert operations')
def c12(d, tier):
    return ops.invert_ops(d)


@prop('C15', 'builder')
def c15(d, tier):
    return [h for h in ops.builder_ops(d)]


@prop('C07', 'write protection')
def c07(d, tier):
    return ops2.protect_ops(d)


def hidden_defs(tier, seed):
    return corpus.corpus(tier, seed, n_quick=40)


@prop('C13', 'read protection', defs=hidden_defs)
def c13(d, tier):
    return ops2.hidden_ops(d)


def panic_defs(tier, seed):
    if tier == 'thorough':
        return corpus.corpus(tier, seed)
    return [d for d in corpus.core() if not d.name.startswith('full_')][::2] + corpus.rand(26, 99, 'q') + \
        corpus.rand_switched(8, 98)


@prop('C14', 'panic freedom', defs=panic_defs)
def c14(d, tier):
    return ops2.panic_ops(d, tier)


@prop('C16', 'bitflags', defs=ops2.flag_corpus)
def c16(d, tier):
    return ops2.flag_ops(d)


@prop('C18', 'Debug')
def c18(d, tier):
    return ops2.debug_ops(d)


@prop('C22', 'equivalent schemas', defs=ops2.pair_corpus)
def c22(d, tier):
    return ops2.pair_ops(d)


def custom_defs(tier, seed):
    L = [d for d in corpus.core() if any(f.ty.kind == 'custom' for f in d.fields)]
    if tier == 'quick':
        return L + corpus.rand_custom(20, 500) + corpus.rand_custom(4, 500 + 97 * seed, 'cs')
    return L + corpus.rand_custom(160, 500) + corpus.rand_custom(40, 500 + 97 * seed, 'cs')


@prop('C17', 'custom and nested types', defs=custom_defs)
def c17(d, tier):
    return ops2.custom_ops(d, tier)


def ignored_defs(tier, seed):
    L = [d for d in corpus.core() if d.ignored]
    if tier == 'quick':
        return L + corpus.rand_ignored(20, 900) + corpus.rand_ignored(4, 900 + 13 * seed, 'gs')
    return L + corpus.rand_ignored(140, 900) + corpus.rand_ignored(40, 900 + 13 * seed, 'gs')


@prop('C19', 'ignored fields', defs=ignored_defs)
def c19(d, tier):
    return ops2.ignored_ops(d, tier)


@prop('C21', 'configuration switches', defs=ops2.config_corpus)
def c21(d, tier):
    return ops2.config_ops(d, tier)


@prop('C23', 'Cargo feature defaults', defs=ops2.feature_corpus)
def c23(d, tier):
    return ops2.feature_ops(d, tier)


@prop('C24', 'without std and in constants', defs=ops2.bare_corpus)
def c24(d, tier):
    return ops2.bare_ops(d, tier)
