"""Reference model: hand ranking and the table, written independently of clubs."""
import copy
import itertools
from math import comb

RANKS = "23456789TJQKA"
SUITS = "\u2660\u2665\u2666\u2663"  # spade heart diamond club
SUIT_LETTER = dict(zip(SUITS, "SHDC"))
CODES = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]


def full_deck(suits, ranks):
    return [r + s for r in RANKS[13 - ranks:] for s in SUITS[:suits]]


_COUNTS = {}


def class_counts(suits, ranks, n, low):
    """number of n-card hands of each class in the deck, by rank patterns"""
    key = (suits, ranks, n, low)
    if key in _COUNTS:
        return _COUNTS[key]
    counts = dict.fromkeys(CODES, 0)
    for combo in itertools.combinations_with_replacement(range(13 - ranks, 13), n):
        mult = {}
        for r in combo:
            mult[r] = mult.get(r, 0) + 1
        shape = sorted(mult.values(), reverse=True)
        if shape[0] > suits:
            continue
        ways = 1
        for m in shape:
            ways *= comb(suits, m)
        if shape[0] == 1:
            straight = n >= 3 and _is_straight(sorted(combo, reverse=True), ranks, low)
            flush = suits if (n >= 3 and suits >= 2) else 0
            if straight:
                counts["sf"] += flush
                counts["st"] += ways - flush
            else:
                counts["fl"] += flush
                counts["hc"] += ways - flush
        else:
            counts[_shape_class(shape)] += ways
    _COUNTS[key] = counts
    return counts


def _shape_class(shape):
    if shape[0] == 4:
        return "fk"
    if shape[0] == 3:
        return "fh" if len(shape) > 1 and shape[1] == 2 else "tk"
    if shape[0] == 2:
        return "tp" if len(shape) > 1 and shape[1] == 2 else "pa"
    return "hc"


def _is_straight(desc, ranks, low):
    n = len(desc)
    if desc[0] - desc[-1] == n - 1:
        return True
    if low and desc[0] == 12:
        lowest = 13 - ranks
        return desc[1:] == list(range(lowest + n - 2, lowest - 1, -1))
    return False


def trips3_differs(cfg):
    """known finding: in decks with three suits the code counts three of a kinds
    as if their kickers had one suit (pinned by an existing test)"""
    return (cfg["num_suits"] == 3 and cfg["num_cards_for_hand"] >= 4
            and cfg.get("order") is None)


class HandRanker:
    def __init__(self, cfg, trips3=False):
        self.suits = cfg["num_suits"]
        self.ranks = cfg["num_ranks"]
        self.n = cfg["num_cards_for_hand"]
        self.mand = cfg["mandatory_num_hole_cards"]
        self.low = cfg.get("low_end_straight", True)
        counts = class_counts(self.suits, self.ranks, self.n, bool(self.low))
        order = cfg.get("order")
        if trips3:
            counts = dict(counts, tk=counts["tk"] // 3 ** (self.n - 3))
        possible = [c for c in CODES if counts[c]]
        if order is None:
            ranked = sorted(possible, key=lambda c: counts[c])  # best first
            vals = sorted(counts[c] for c in possible)
            self.ambiguous = any(a == b for a, b in zip(vals, vals[1:]))
        else:
            ranked = [c for c in order if c in possible]
            self.ambiguous = False
        self.value = {c: len(ranked) - i for i, c in enumerate(ranked)}
        self.ranked = ranked
        self._cache = {}

    def strength5(self, cards):
        """comparable strength of exactly n cards, higher is better"""
        key = frozenset(cards)
        hit = self._cache.get(key)
        if hit is not None:
            return hit
        rk = sorted((RANKS.index(c[0]) for c in cards), reverse=True)
        mult = {}
        for r in rk:
            mult[r] = mult.get(r, 0) + 1
        grouped = sorted(mult.items(), key=lambda kv: (kv[1], kv[0]), reverse=True)
        shape = [m for _, m in grouped]
        tie = tuple(r for r, _ in grouped)
        n = self.n
        if shape[0] == 1:
            flush = n >= 3 and self.suits >= 2 and len(set(c[1] for c in cards)) == 1
            straight = n >= 3 and _is_straight(rk, self.ranks, self.low)
            if straight:
                # the ace-low straight counts from its second card
                top = rk[0] if rk[0] - rk[-1] == n - 1 else rk[1]
                tie = (top,)
            cls = ("sf" if straight else "fl") if flush else (
                "st" if straight else "hc")
        else:
            cls = _shape_class(shape)
        res = (self.value[cls], tie)
        if len(self._cache) < 200000:
            self._cache[key] = res
        return res

    def best(self, hole, board):
        best = None
        s5 = self.strength5
        if self.mand:
            rest = self.n - self.mand
            for h in itertools.combinations(hole, self.mand):
                for b in itertools.combinations(board, rest):
                    v = s5(h + b)
                    if best is None or v > best:
                        best = v
        else:
            for c in itertools.combinations(tuple(hole) + tuple(board), self.n):
                v = s5(c)
                if best is None or v > best:
                    best = v
        return best

    def class_of(self, hole, board):
        return self.ranked[len(self.ranked) - self.best(hole, board)[0]]


def norm_list(value, n):
    return list(value) if isinstance(value, list) else [value] * n


class Rules:
    """normalised configuration"""

    def __init__(self, cfg):
        self.cfg = cfg = copy.deepcopy(cfg)
        self.n = cfg["num_players"]
        self.streets = cfg["num_streets"]
        self.blinds = norm_list(cfg["blinds"], self.n)
        self.antes = norm_list(cfg["antes"], self.n)
        self.raise_sizes = norm_list(cfg["raise_sizes"], self.streets)
        self.num_raises = [float(x) for x in norm_list(cfg["num_raises"], self.streets)]
        self.ncc = norm_list(cfg["num_community_cards"], self.streets)
        self.holes = cfg["num_hole_cards"]
        self.start = cfg["start_stack"]
        self.bb = self.blinds[1]
        self.deck = full_deck(cfg["num_suits"], cfg["num_ranks"])
        self.ranker = HandRanker(cfg)
        # ranking the code really uses, where a known finding makes it differ
        self.ranker_code = self.ranker
        if trips3_differs(cfg):
            alt = HandRanker(cfg, trips3=True)
            if alt.ranked != self.ranker.ranked:
                self.ranker_code = alt

    def size_kind(self, street):
        size = self.raise_sizes[street]
        if size == "pot":
            return "pot"
        if size == "inf" or size == float("inf"):
            return "inf"
        return int(size)

    def offers(self, street, stack, own, top, pot, largest, raises):
        """call, min, max offered to a player"""
        call = top - own
        kind = self.size_kind(street)
        full = largest
        if isinstance(kind, int):
            lo = hi = kind + call
            full = min(largest, kind)
        else:
            lo = max(self.bb, largest + call, call + 1)
            hi = stack if kind == "inf" else pot + 2 * call
        if raises >= self.num_raises[street]:
            lo = hi = 0
        elif raises > 0 and call < full:
            lo = hi = 0
        if kind == "pot":
            lo = min(lo, hi)
        return min(call, stack), min(lo, stack), min(hi, stack)

    def full_raise(self, street, largest):
        kind = self.size_kind(street)
        return min(largest, kind) if isinstance(kind, int) else largest


def nearest(bet, call, lo, hi):
    """chips taken for a whole-number bet"""
    b = max(0, bet)
    inside = min(max(b, lo), hi)
    best = None
    for v in sorted({0, call, inside}):
        d = abs(v - b)
        if best is None or d < best[0]:
            best = (d, v)
    return best[1]


def decide(bet, offers):
    """(folds, chips) for any number and the offered sizes"""
    call, lo, hi = offers
    amount = nearest(round(bet), call, lo, hi)
    if call > 0 and (bet < 0 or amount < call):
        return True, 0
    return False, amount


def next_seat(seat, alive):
    n = len(alive)
    for i in range(1, n + 1):
        if alive[(seat + i) % n]:
            return (seat + i) % n
    return seat


def settle(contrib, in_hand, strengths, button):
    """net payouts at the end of a hand"""
    n = len(contrib)
    live = [i for i in range(n) if in_hand[i]]
    won = [0] * n
    if len(live) == 1:
        won[live[0]] = sum(contrib)
    else:
        odd = 0
        levels = sorted({contrib[i] for i in live if contrib[i] > 0})
        prev = 0
        pools = []  # layers with the same winners are one pool
        for lv in levels:
            pool = sum(min(c, lv) - min(c, prev) for c in contrib)
            who = [i for i in live if contrib[i] >= lv]
            top = max(strengths[i] for i in who)
            winners = [i for i in who if strengths[i] == top]
            if pools and pools[-1][1] == winners:
                pools[-1][0] += pool
            else:
                pools.append([pool, winners])
            prev = lv
        if pools:
            pools[-1][0] += sum(max(0, c - prev) for c in contrib)
        for pool, winners in pools:
            share, rest = divmod(pool, len(winners))
            for i in winners:
                won[i] += share
            odd += rest
        if odd:
            for k in range(1, n + 1):
                i = (button + k) % n
                if won[i] > 0:
                    won[i] += odd
                    break
    return [won[i] - contrib[i] for i in range(n)]


class Start:
    """expected situation right after a new hand was dealt"""

    def __init__(self, rules, button, stacks, reset_button, reset_stacks):
        n = rules.n
        if reset_stacks:
            stacks = [rules.start] * n
            alive = [True] * n
        else:
            alive = [s > 0 for s in stacks]
        self.refused = not reset_stacks and sum(alive) < 2
        self.brought = list(stacks)
        self.alive = alive
        if self.refused:
            return
        self.button = 0 if reset_button else (button + 1) % n
        first = next_seat(self.button, alive) if n > 2 else self.button
        stacks = list(stacks)
        commits = [0] * n
        pot = 0
        for i in range(n):
            seat = (first + i) % n
            if not alive[seat]:
                continue
            ante = min(rules.antes[i], stacks[seat])
            stacks[seat] -= ante
            pot += ante
            blind = min(rules.blinds[i], stacks[seat])
            stacks[seat] -= blind
            commits[seat] += blind
            pot += blind
        self.stacks = stacks
        self.commits = commits
        self.pot = pot
        self.first = first
        self.actor = next_seat(next_seat(first, alive), alive)
