"""Adapter around a real Dealer: plain-data results and a private random stream."""
import contextlib
import copy
import io
import random

import numbers

from . import loader
from .core import CALLS, Malformed


class BrokenOut(io.StringIO):
    """a stdout which fails after some characters"""

    def __init__(self, room, exc):
        io.StringIO.__init__(self)
        self.room = room
        self.exc = exc

    def write(self, s):
        if self.room <= 0:
            raise self.exc("simulated output failure")
        part = s[: self.room]
        self.room -= len(part)
        io.StringIO.write(self, part)
        if len(part) < len(s):
            raise self.exc("simulated output failure")
        return len(s)


def cards(seq):
    return [str(c) for c in seq]


NUMBERS = ("action", "button", "call", "max_raise", "min_raise", "pot")
SEATS = ("active", "stacks", "street_commits")
CARDS = ("community_cards", "hole_cards")


def per_seat(what, v, n, nums=True):
    """a list with one entry per seat"""
    if not isinstance(v, (list, tuple)) or len(v) != n:
        raise Malformed("%s is %r at a table of %d seats" % (what, v, n))
    if nums and not all(isinstance(x, numbers.Real) for x in v):
        raise Malformed("%s is %r" % (what, v))
    return v


def check_obs(o, n):
    if not isinstance(o, dict):
        raise Malformed("the observation is %r" % (o,))
    for k in NUMBERS + SEATS + CARDS:
        if k not in o:
            raise Malformed("the observation has no %s: %s" % (k, sorted(o)))
    for k in NUMBERS:
        if not isinstance(o[k], numbers.Real):
            raise Malformed("the observation says %s %r" % (k, o[k]))
    for k in SEATS:
        per_seat("observation: " + k, o[k], n)
    for k in CARDS:
        if not isinstance(o[k], (list, tuple)):
            raise Malformed("the observation says %s %r" % (k, o[k]))
    if not -1 <= o["action"] < n or not 0 <= o["button"] < n:
        raise Malformed("the observation says player %r is to act, button %r at a table of "
                        "%d seats" % (o["action"], o["button"], n))


def norm_obs(o, n=None):
    if n is not None:
        check_obs(o, n)
    return {
        "action": o["action"],
        "active": [bool(x) for x in o["active"]],
        "button": o["button"],
        "call": o["call"],
        "community_cards": cards(o["community_cards"]),
        "hole_cards": cards(o["hole_cards"]),
        "max_raise": o["max_raise"],
        "min_raise": o["min_raise"],
        "pot": o["pot"],
        "stacks": list(o["stacks"]),
        "street_commits": list(o["street_commits"]),
    }


class Res:
    """outcome of one call"""

    __slots__ = ("exc", "obs", "payouts", "done", "text", "value", "raw")

    def __init__(self):
        self.exc = self.obs = self.payouts = self.done = None
        self.text = self.value = self.raw = None

    def key(self):
        return (
            type(self.exc).__name__ if self.exc is not None else None,
            repr(sorted(self.obs.items())) if self.obs is not None else None,
            self.payouts, self.done, self.text, self.value,
        )

    def brief(self):
        if self.exc is not None:
            return "raised %s: %s" % (type(self.exc).__name__, str(self.exc)[:120])
        parts = []
        if self.obs is not None:
            o = self.obs
            parts.append(
                "to act %s, stacks %s, pot %s, street %s, call/min/max %s/%s/%s, board %s"
                % (o["action"], o["stacks"], o["pot"], o["street_commits"],
                   o["call"], o["min_raise"], o["max_raise"],
                   ",".join(o["community_cards"]))
            )
        if self.payouts is not None:
            parts.append("payouts %s done %s" % (
                self.payouts, [int(d) for d in self.done]))
        if self.value is not None:
            parts.append("value %s" % (self.value,))
        return "; ".join(parts) or "ok"


class Table:
    def __init__(self, clubs, cfg, seed, own=True):
        """own: the table gets lists of its own, not the ones in the configuration"""
        self.clubs = clubs
        if own:
            cfg = copy.deepcopy(cfg)
        self.cfg = dict(cfg)
        random.seed(seed)
        self.dealer = clubs.poker.Dealer(**cfg)
        self._rng = random.getstate()
        self.hands = 0

    @contextlib.contextmanager
    def rng(self):
        random.setstate(self._rng)
        try:
            yield
        finally:
            self._rng = random.getstate()

    def _call(self, func, out=None):
        """run func() with this table's random stream; exceptions are results"""
        res = Res()
        CALLS[0] += 1
        random.setstate(self._rng)
        buf = out if out is not None else io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                raw = func()
            res.raw = raw
        except Exception as e:  # noqa
            if not loader.in_sut(e):
                raise
            res.exc = e
        finally:
            self._rng = random.getstate()
        if out is None and res.exc is None:
            res.text = buf.getvalue() or None
        return res

    def reset(self, rb=False, rs=False):
        d = self.dealer
        res = self._call(lambda: d.reset(reset_button=rb, reset_stacks=rs))
        if res.exc is None:
            res.obs = norm_obs(res.raw, self.cfg["num_players"])
            self.hands += 1
        return res

    def step(self, bet):
        d = self.dealer
        res = self._call(lambda: d.step(bet))
        if res.exc is None:
            n = self.cfg["num_players"]
            if not isinstance(res.raw, tuple) or len(res.raw) != 3:
                raise Malformed("a bet returned %r" % (res.raw,))
            obs, payouts, done = res.raw
            res.obs = norm_obs(obs, n)
            res.payouts = list(per_seat("payouts", payouts, n))
            res.done = [bool(x) for x in per_seat("done", done, n, False)]
        return res

    def text(self):
        d = self.dealer
        res = self._call(lambda: str(d))
        if res.exc is None:
            res.text = res.raw
        return res

    def render(self, mode="ascii", out=None):
        d = self.dealer
        return self._call(lambda: d.render(mode), out=out)

    def winp(self):
        d = self.dealer
        res = self._call(lambda: d.win_probabilities())
        if res.exc is None:
            res.value = list(per_seat("win probabilities", res.raw, self.cfg["num_players"]))
        return res

    def card(self, name):
        letter = {"\u2660": "S", "\u2665": "H", "\u2666": "D", "\u2663": "C"}
        return self.clubs.Card(name[0] + letter[name[1]])

    def trick(self, names):
        cs = [self.card(n) for n in names]
        d = self.dealer
        return self._call(lambda: d.deck.trick(cs) and None)

    def bad_trick(self, names, odd):
        """stack the deck with an object which is none of its cards"""
        junk = {"None": None, "'AS'": "AS", "7": 7}
        top = [self.card(n) for n in names]
        top.append(junk[odd] if odd in junk else self.card(odd))
        d = self.dealer
        return self._call(lambda: d.deck.trick(top) and None)

    def untrick(self):
        d = self.dealer
        return self._call(lambda: d.deck.untrick() and None)

    def rebuy(self, seat, chips):
        self.dealer.stacks[seat] = chips
        return Res()

    # -- observable state
    def seats(self, what, v):
        if self.hands:
            per_seat(what, v, self.cfg["num_players"], False)
        return v

    def stacks(self):
        return list(self.seats("stacks", self.dealer.stacks))

    def active(self):
        return [bool(x) for x in self.seats("active", self.dealer.active)]

    def pot(self):
        return self.dealer.pot

    def holes(self):
        return [cards(h) for h in self.seats("hole cards", self.dealer.hole_cards)]

    def board(self):
        return cards(self.dealer.community_cards)

    def deck(self):
        return cards(self.dealer.deck.cards)

    def fingerprint(self):
        """everything observable about the table from outside"""
        d = self.dealer
        fp = {
            "stacks": list(d.stacks),
            "active": [bool(x) for x in d.active],
            "pot": d.pot,
            "holes": self.holes(),
            "board": self.board(),
            "deck": self.deck(),
        }
        for name in ("button", "action", "street", "street_commits"):
            v = getattr(d, name, None)
            fp[name] = list(v) if isinstance(v, list) else v
        if self.hands:
            r = self.text()
            fp["text"] = r.raw if r.exc is None else "raised " + type(r.exc).__name__
        return fp
