"""Random table configurations, drawn from the tape."""
import copy
from math import comb

from . import model

CODES = model.CODES


def presets(clubs):
    out = []
    for name in sorted(vars(clubs.configs)):
        v = getattr(clubs.configs, name)
        if name.isupper() and isinstance(v, dict) and "num_players" in v:
            out.append((name, v))
    return out


def gen_stack(t, bb, prof):
    kind = t.weighted(prof.get("stack", [(6, "small"), (6, "mid"), (4, "tiny"), (2, "big"), (1, "huge")]))
    unit = max(1, bb)
    if kind == "tiny":
        return t.between(1, 3 * unit)
    if kind == "small":
        return t.between(2, 20 * unit)
    if kind == "mid":
        return t.between(20, 100 * unit)
    if kind == "huge":
        # beyond what a float holds exactly, too
        return t.pick([10 ** 6, 10 ** 9, 2 ** 53, 10 ** 17, 10 ** 18, 10 ** 30]) + t.draw(1000)
    return t.between(100, 2000 * unit)


def gen(t, clubs, prof=None):
    """-> (label, config dict)"""
    prof = prof or {}
    pres = presets(clubs)
    if pres and t.chance(prof.get("preset", 30)):
        name, cfg = t.pick(pres)
        cfg = copy.deepcopy(cfg)
        maxp = prof.get("max_players", 10)
        cost = _cost(cfg)
        if cfg["num_players"] <= maxp and cost <= prof.get("max_combos", 130):
            if t.chance(60):
                blinds = model.norm_list(cfg["blinds"], cfg["num_players"])
                cfg["start_stack"] = gen_stack(t, blinds[1], prof)
            return name, cfg
    return "random", random_config(t, prof)


def _cost(cfg):
    comm = cfg["num_community_cards"]
    total = sum(model.norm_list(comm, cfg["num_streets"]))
    h, n, m = cfg["num_hole_cards"], cfg["num_cards_for_hand"], cfg["mandatory_num_hole_cards"]
    if m:
        return comb(h, m) * comb(total, max(0, n - m))
    return comb(h + total, n)


def random_config(t, prof):
    max_players = prof.get("max_players", 10)
    n_hand = t.weighted(prof.get("hand", [(4, 5), (1, 1), (2, 2), (3, 3), (2, 4)]))
    suits = t.weighted([(5, 4), (2, 3), (2, 2), (1, 1)])
    lo = n_hand + 1
    if t.chance(prof.get("full_ranks", 35)):
        ranks = 13
    else:
        ranks = t.between(lo, 13)
    cards = suits * ranks
    while cards < n_hand + 2:
        ranks += 1
        cards = suits * ranks
    n = t.weighted([(4, 2), (4, 3), (3, 4), (2, 5), (3, 6), (1, 7), (1, 8), (2, 9), (1, 10)])
    n = min(n, max_players)
    streets = t.weighted([(6, 2), (6, 1), (6, 4), (4, 3), (1, 5), (1, 6), (1, 8)])
    # hole and community cards
    holes = t.weighted([(3, 1), (5, 2), (2, 3), (2, 4), (1, 5)])
    total = max(0, n_hand - holes) + t.draw(4)
    while True:
        m_ok = holes + total >= n_hand
        if m_ok and n * holes + total <= cards and comb(holes + total, n_hand) <= prof.get("max_combos", 130):
            break
        if not m_ok:
            total += 1
            continue
        if total > max(0, n_hand - holes):
            total -= 1
        elif n > 2:
            n -= 1
        elif holes > 1:
            holes -= 1
            total = max(0, n_hand - holes)
        else:
            suits = 4
            ranks = 13
            cards = 52
    ncc = [0] * streets
    first_ok = t.chance(20) or streets == 1
    for _ in range(total):
        if first_ok:
            ncc[t.draw(streets)] += 1
        else:
            ncc[1 + t.draw(streets - 1)] += 1
    if t.chance(10) and len(set(ncc)) == 1:
        ncc = ncc[0]
    # mandatory hole cards
    mand = 0
    if t.chance(30):
        lo_m = max(1, n_hand - total)
        hi_m = min(holes, n_hand)
        if lo_m <= hi_m:
            mand = t.between(lo_m, hi_m)
    # forced bets
    bkind = t.weighted([(5, "std"), (2, "none"), (2, "rand"), (1, "int"), (1, "straddle")])
    bb = t.between(1, 5) if bkind != "none" else 0
    blinds = [0] * n
    if bkind == "std":
        blinds[0], blinds[1] = max(1, bb // 2), bb
    elif bkind == "straddle":
        blinds[0], blinds[1] = max(1, bb // 2), bb
        if n > 2:
            blinds[2] = 2 * bb
    elif bkind == "rand":
        blinds = [t.draw(5) for _ in range(n)]
    elif bkind == "int":
        blinds = bb
    elif bkind == "none":
        blinds = 0 if t.chance(50) else [0] * n
    akind = t.weighted([(5, "none"), (2, "all"), (2, "one"), (2, "rand")])
    antes = 0
    if akind == "all" or (akind == "none" and bkind == "none"):
        antes = t.between(1, 4)
    elif akind == "one":
        antes = [0] * n
        antes[t.draw(n)] = t.between(1, 6)
    elif akind == "rand":
        antes = [t.draw(5) for _ in range(n)]
    unit = model.norm_list(blinds, n)[1] or 1

    def rsize():
        k = t.weighted([(5, "inf"), (3, "pot"), (4, "fix")])
        if k != "fix":
            if k == "inf" and t.chance(25):
                return float("inf")
            return k
        return unit * t.between(1, 4) + (t.draw(3) if t.chance(20) else 0)

    if t.chance(60):
        raise_sizes = rsize()
        if raise_sizes == float("inf") and not prof.get("float_inf", True):
            raise_sizes = "inf"
    elif t.chance(60):
        base = unit * t.between(1, 3)
        raise_sizes = sorted(base * t.between(1, 3) for _ in range(streets))
    else:
        raise_sizes = [rsize() for _ in range(streets)]

    def rnum():
        k = t.weighted([(4, float("inf")), (2, "inf"), (4, 0), (1, 1)])
        if k == 0:
            return t.between(1, 4)
        if k == 1:
            return t.draw(2)
        return k

    num_raises = rnum() if t.chance(70) else [rnum() for _ in range(streets)]
    low = not t.chance(30)
    cfg = {
        "num_players": n,
        "num_streets": streets,
        "blinds": blinds,
        "antes": antes,
        "raise_sizes": raise_sizes,
        "num_raises": num_raises,
        "num_suits": suits,
        "num_ranks": ranks,
        "num_hole_cards": holes,
        "num_community_cards": ncc,
        "num_cards_for_hand": n_hand,
        "mandatory_num_hole_cards": mand,
        "start_stack": gen_stack(t, unit, prof),
        "low_end_straight": low,
        "order": None,
    }
    if t.chance(20) or model.HandRanker(cfg).ambiguous:
        cfg["order"] = t.shuffled(CODES)
    return cfg
