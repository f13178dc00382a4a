"""Strategies. Every case is plain JSON data; times are integer ticks, turned into seconds
as offset + tick*scale, so equal ticks are equal floats."""
from sut import *
from hypothesis import strategies as st

LABELS = ["", "a", "b", "AH0", "the", "x y", "ŋ", "sp", "a", "DH", "é", "?", "1", "'s"]
LABELS += ["C#", "{SL}", "0", "None", "<unk>", "sil", "spn", "AY1", "A", "THE", "a longer label, as of a whole utterance or a comment on it",
           "on and on " * 29 + "end"]
free = st.text(alphabet="abcXYŋé0123456789_-+.,;:!?()[]{}/&*%$~", min_size=1, max_size=5)
labels = st.one_of(st.just(""), *[st.sampled_from(LABELS)] * 4, st.sampled_from(["", "a", "b"]), free)
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"]
INT = 1          # integer times, as in the documentation's examples
SCALES = [0.01, 0.1, 1.0, 0.125, 1 / 3, INT]
FINE = [0.001, 0.0002]
OFFSETS = [0.0, 0.0, 0.0, 2.5, 17.31]


def secs(case, tick):
    return case["offset"] + tick * case["scale"]


@st.composite
def partition(draw, lo, hi, within=None, max_cuts=6):
    """Sorted boundary ticks from lo to hi; a refinement of `within` if given."""
    cuts = set(within or [lo, hi])
    if hi - lo > 1:
        cuts |= set(draw(st.lists(st.integers(lo + 1, hi - 1), max_size=max_cuts)))
    return sorted(cuts)


@st.composite
def tier_from(draw, bounds):
    labs = draw(st.lists(labels, min_size=len(bounds) - 1, max_size=len(bounds) - 1))
    return [[s, e, l] for s, e, l in zip(bounds, bounds[1:], labs)]


@st.composite
def aligned_tiers(draw, depth, lo=0, hi=None, max_cuts=5):
    """depth tiers, each refining the one above; no gaps."""
    if hi is None:
        hi = lo + draw(st.integers(1, 24))
    tiers, b = [], None
    for _ in range(depth):
        b = draw(partition(lo, hi, b, max_cuts))
        tiers.append(draw(tier_from(b)))
    return tiers


@st.composite
def gappy(draw, tier, keep_ends=False):
    """Drops some intervals (never all)."""
    n = len(tier)
    idx = list(range(1, n - 1)) if keep_ends else list(range(n))
    drop = draw(st.sets(st.sampled_from(idx), max_size=n - 1)) if idx else set()
    out = [e for i, e in enumerate(tier) if i not in drop]
    return out or tier


@st.composite
def point_tier(draw, lo=0, hi=24):
    ts = sorted(draw(st.sets(st.integers(lo, hi), min_size=1, max_size=8)))
    return [[t, draw(labels)] for t in ts]


@st.composite
def timebase(draw):
    scale = draw(st.sampled_from(SCALES * 2 + FINE))
    if scale in FINE:
        return dict(scale=scale, offset=draw(st.sampled_from([0.0, 0.0, 2.5]) if scale > .0005 else st.just(0.0)))
    # late times stay well above np.allclose's tolerance, which grows with them
    late = [240.0] if scale >= .1 else []
    late += [3000.0] if scale >= 1 else []
    return dict(scale=scale, offset=0 if type(scale) is int else draw(st.sampled_from(OFFSETS + late)))
