"""The simulated poker room.

A real Dealer is the only real component; players, their network, the turn
clock, spectators and the house (new hands, re-buys, stacked decks) are
simulated.  Everything is decided by the tape.
"""
from decimal import Decimal
from fractions import Fraction

from . import genconf, model
from .core import Sim, Stats
from .table import BrokenOut, Table

UNUSABLE = [
    ("None", None),
    ("'12'", "12"),
    ("'x'", "x"),
    ("nan", float("nan")),
    ("[]", []),
    ("inf", float("inf")),
    ("-inf", float("-inf")),
    ("1j", 1j),
    ("{}", {}),
    ("''", ""),
]
MODES = ["ansi", "", "rgb_array", "ASCII", "humans"]


class Exp:
    """what one step should lead to"""


class Tracker:
    """Follows the table by what it observably did; supplies expectations."""

    def __init__(self, rules):
        self.r = rules
        self.in_progress = False
        self.over = False
        self.lost = False
        self.hands = 0
        self.button = 0
        self.final = None

    # -- new hand
    def start(self, table, res, brought):
        r = self.r
        o = res.obs
        self.hands += 1
        self.in_progress = True
        self.over = False
        self.lost = False
        self.final = None
        self.brought = brought
        self.button = o["button"]
        self.street = 0
        self.largest = r.bb
        self.raises = 0
        self.active = table.active()
        self.acted = [not a for a in self.active]
        self.holes = table.holes()
        self.first_board = table.board()
        self.steps = 0
        self.passive = 0
        self._sync(table, o)

    def _sync(self, table, o):
        self.stacks = table.stacks()
        self.active = table.active()
        self.commits = list(o["street_commits"])
        self.pot = o["pot"]
        self.actor = o["action"]
        self.board = table.board()
        self.offers = (o["call"], o["min_raise"], o["max_raise"])
        self.contrib = [b - s for b, s in zip(self.brought, self.stacks)]

    def model_offers(self):
        a = self.actor
        return self.r.offers(
            self.street, self.stacks[a], self.commits[a], max(self.commits),
            self.pot, self.largest, self.raises)

    def post(self, fold, amount):
        """consequences of an action of the player to act"""
        r = self.r
        e = Exp()
        a = self.actor
        e.actor_before = a
        e.fold, e.amount = fold, amount
        e.active = list(self.active)
        if fold:
            e.active[a] = False
        e.stacks = list(self.stacks)
        e.stacks[a] -= amount
        e.commits = list(self.commits)
        e.commits[a] += amount
        e.contrib = list(self.contrib)
        e.contrib[a] += amount
        acted = list(self.acted)
        acted[a] = True
        top = max(e.commits)
        live = [i for i in range(r.n) if e.active[i]]
        e.closed = all(
            acted[i] and (e.commits[i] == top or e.stacks[i] == 0) for i in live
        ) or all(e.stacks[i] == 0 for i in live)
        e.street = self.street
        e.draws = 0
        e.acted = acted
        e.actor = model.next_seat(a, e.active)
        if e.closed:
            rich = sum(1 for i in live if e.stacks[i] > 0)
            while True:
                e.street += 1
                if e.street >= r.streets:
                    break
                e.draws += r.ncc[e.street]
                if rich > 1:
                    break
            e.commits_after = [0] * r.n
            e.acted = [not x for x in e.active]
            e.actor = model.next_seat(self.button, e.active)
        else:
            e.commits_after = e.commits
        e.foldout = len(live) <= 1
        e.over = e.foldout or e.street >= r.streets
        if e.over:
            e.done = [True] * r.n
        else:
            e.done = [not e.active[i] or e.stacks[i] == 0 for i in range(r.n)]
        # raise bookkeeping
        call = max(self.commits) - self.commits[a]
        full = r.full_raise(self.street, self.largest)
        e.largest, e.raises = self.largest, self.raises
        e.raised = amount > call
        if amount > call and amount - call >= full:
            e.largest = max(self.largest, amount - call)
            e.raises += 1
        if e.closed:
            e.raises = 0
        return e

    def expect(self, bet):
        """from the offered sizes the table itself announced"""
        fold, amount = model.decide(bet, self.offers)
        return self.post(fold, amount)

    def after_step(self, table, res, predicted):
        """-> (expectation given what was observably taken, over?)"""
        o = res.obs
        over = all(res.done)
        if over:
            e = predicted
            self.in_progress = False
            self.over = True
            self.final = res
            self.steps += 1
            self.last = e
            self.final_contrib = e.contrib
            self.final_active = table.active()
            self.board = table.board()
            self.stacks = table.stacks()
            self.active = table.active()
            return e
        a = self.actor
        now = table.stacks()
        act = table.active()
        amount = self.stacks[a] - now[a]
        fold = self.active[a] and not act[a]
        e = self.post(fold, amount)
        self.steps += 1
        street = e.street if e.street < self.r.streets else self.r.streets - 1
        nb = len(table.board())
        if sum(self.r.ncc[: street + 1]) != nb:
            cand = [s for s in range(self.street, self.r.streets)
                    if sum(self.r.ncc[: s + 1]) == nb]
            if cand:
                street = cand[0]
            else:
                self.lost = True
        if street != self.street or e.raised:
            self.passive = 0
        else:
            self.passive += 1
        self.street = street
        self.acted = e.acted
        self.largest = e.largest
        self.raises = e.raises
        self._sync(table, o)
        return e


KNOBS = {
    # network
    "delay": 3.0, "drop": 0, "dup": 0, "corrupt": 0, "strict": 0,
    # house
    "midreset": 0, "refused": 0, "rebuy": 0, "trick": 0, "reset_button": 5,
    "reset_stacks": 5, "after_end": 0, "end_bets": [],
    # spectators
    "passive": 0, "broken_out": 0, "hostile": 0, "badmode": 0, "winp": 0,
    "abort": 0, "hands": 8, "badtrick": 0,
}


class Room:
    def __init__(self, clubs, tape, checker, prof):
        self.clubs = clubs
        self.t = tape
        self.stats = Stats()
        self.sim = Sim()
        self.log = []
        self.checker = checker
        self.prof = prof
        self.label, self.cfg = genconf.gen(tape, clubs, prof)
        self.rules = model.Rules(self.cfg)
        self.seed = tape.draw(1 << 30)
        self.knobs = dict(KNOBS)
        for k, v in prof.get("knobs", {}).items():
            if isinstance(v, tuple):  # swarm: (chance it is on, max rate)
                on, top = v
                self.knobs[k] = (1 + tape.draw(top)) if tape.chance(on) else 0
            else:
                self.knobs[k] = v
        self.trace("config %s %s" % (self.label, self.cfg))
        self.trace("deal seed %d knobs %s" % (
            self.seed, {k: v for k, v in self.knobs.items() if v}))
        self.table = self.make_table()
        self.tr = Tracker(self.rules)
        self.ops = []
        self.turn = 0
        self.timer = None
        self.stacked = None
        self.hostile_targets = []
        self.max_hands = 1 + tape.draw(self.knobs["hands"])
        self.max_events = 700
        self.winp_left = self.prof.get("winp_budget", 10 ** 6)
        if self.knobs["hands"] > 1 and tape.chance(1):
            self.max_hands = 30 + tape.draw(70)
            self.max_events = 8000
            if tape.chance(8):
                self.max_hands = 200 + tape.draw(600)
                self.max_events = 60000
            self.stats.probe("long session")
        n = self.rules.n
        self.persona = [self.gen_persona() for _ in range(n)]
        self.stop_faults = False

    def make_table(self):
        return Table(self.clubs, self.cfg, self.seed)

    def trace(self, text):
        self.log.append("t=%.3f %s" % (self.sim.now, text))

    # ---------------------------------------------------------------- players
    def gen_persona(self):
        t = self.t
        kind = t.weighted([(3, "caller"), (3, "mixed"), (2, "maniac"), (2, "shover"),
                           (1, "folder"), (2, "chaos")])
        w = {
            "caller": dict(call=12, fold=1, lo=1, hi=0, mid=1, rand=1, odd=0),
            "mixed": dict(call=6, fold=3, lo=3, hi=1, mid=2, rand=1, odd=1),
            "maniac": dict(call=2, fold=1, lo=5, hi=2, mid=5, rand=1, odd=0),
            "shover": dict(call=3, fold=1, lo=1, hi=6, mid=1, rand=1, odd=0),
            "folder": dict(call=3, fold=6, lo=1, hi=0, mid=0, rand=0, odd=1),
            "chaos": dict(call=1, fold=1, lo=1, hi=1, mid=1, rand=5, odd=5),
        }[kind]
        return w

    def gen_bet(self, seat, obs):
        t = self.t
        w = self.persona[seat]
        kind = t.weighted([(w[k], k) for k in
                           ("call", "fold", "lo", "hi", "mid", "rand", "odd")])
        call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
        stack = obs["stacks"][seat] if seat < len(obs["stacks"]) else 10
        if kind == "call":
            return call
        if kind == "fold":
            return -1 if t.draw(3) else 0
        if kind == "lo":
            return lo
        if kind == "hi":
            return hi if t.draw(2) == 0 else stack
        if kind == "mid":
            if hi > lo:
                return t.between(lo, hi)
            return hi
        if kind == "rand":
            return t.between(0, max(2, 2 * stack))
        k = t.draw(9)
        if k == 0:
            return t.between(0, max(2, stack)) + 0.25
        if k == 1:
            return call + (lo - call) // 2 if lo > call else call - 1
        if k == 2:
            return call + (lo - call) // 2 + 1
        if k == 3:
            return t.pick([10 ** 9, 10 ** 30, 1e18, 1e300, 10 ** 400, -10 ** 400])
        if k == 4:
            return -t.between(1, max(2, stack))
        if k == 5:
            return float(t.between(0, max(2, stack)))
        if k == 6:
            return t.pick([-0.25, 0.25, 0.75, -1e9, -0.75])
        if k == 7:
            return call // 2 + t.draw(2)
        # other kinds of numbers
        n = t.between(-2, max(2, stack))
        return t.pick([Fraction(4 * n + 1, 4), Decimal(4 * n + 3) / 4, Fraction(n), Decimal(n),
                       bool(n % 2), -0.0])

    # --------------------------------------------------------------- operations
    def do(self, op):
        """execute one call on the table, with checks around it"""
        self.ops.append(op)
        tb = self.table
        kind = op[0]
        self.stats.op(kind)
        exp = None
        if kind == "step" and self.tr.in_progress:
            exp = self.tr.expect(op[1])
        self.exp = exp
        self.checker.before(self, op)
        res = self.execute(tb, op)
        self.trace("%s -> %s" % (self.op_text(op), res.brief()))
        self.note_state(op, res)
        if kind == "reset":
            if res.exc is None:
                brought = op[3]
                self.tr.start(tb, res, brought)
        elif kind == "step":
            if exp is not None and res.exc is None:
                was = self.tr.street
                self.exp = self.tr.after_step(tb, res, exp)
                self.prev_street = was
                if self.tr.over:
                    self.stats.probe("hand ended by folds" if exp.foldout else "showdown")
        elif kind == "bad" and res.exc is None:
            self.tr.lost = True
        self.checker.after(self, op, res)
        return res

    def execute(self, tb, op):
        kind = op[0]
        if kind == "reset":
            return tb.reset(op[1], op[2])
        if kind == "step":
            return tb.step(op[1])
        if kind == "bad":
            return tb.step(dict(UNUSABLE)[op[1]])
        if kind == "text":
            return tb.text()
        if kind == "render":
            return tb.render("ascii")
        if kind == "badmode":
            return tb.render(op[1])
        if kind == "broken":
            return tb.render("ascii", out=BrokenOut(op[1], {
                "BrokenPipeError": BrokenPipeError, "OSError": OSError,
                "KeyError": KeyError}[op[2]]))
        if kind == "winp":
            return tb.winp()
        if kind == "trick":
            return tb.trick(op[1])
        if kind == "untrick":
            return tb.untrick()
        if kind == "badtrick":
            return tb.bad_trick(op[1], op[2])
        if kind == "rebuy":
            return tb.rebuy(op[1], op[2])
        if kind == "hostile":
            return self.vandalise(tb, op)
        raise RuntimeError("unknown op %r" % (op,))

    @staticmethod
    def op_text(op):
        k = op[0]
        if k == "step":
            return "bet %r" % (op[1],)
        if k == "reset":
            return "reset(button=%s, stacks=%s)" % (op[1], op[2])
        if k == "bad":
            return "bet %s" % op[1]
        return " ".join(str(x) for x in op)

    def note_state(self, op, res):
        o = res.obs
        if o is None or self.tr.lost:
            return
        if op[0] == "step" and self.tr.in_progress:
            st = self.stats
            n = self.rules.n
            act = o["active"]
            top = max(o["street_commits"]) if o["street_commits"] else 0
            allin = sum(1 for a, s in zip(act, o["stacks"]) if a and s == 0)
            sig = (n, sum(act), allin, len(o["community_cards"]), o["call"] == 0,
                   o["max_raise"] == 0, o["min_raise"] == o["max_raise"],
                   top > 0, (o["action"] - o["button"]) % n, res.done.count(True))
            st.states.add(sig)
            if allin >= 2:
                st.probe("two or more all in")
            if o["max_raise"] == 0 and o["action"] >= 0:
                st.probe("raising not allowed")

    # --------------------------------------------------------------- the house
    def run(self, max_events=None):
        self.checker.start(self)
        self.sim.at(0.0, self.begin_hand)
        if any(self.knobs[k] for k in ("passive", "badmode", "badtrick", "winp", "broken_out", "abort")):
            self.sim.after(0.5, self.spectate)
        self.ended = False
        self.sim.run(max_events or self.max_events)
        self.calm()
        self.checker.finish(self)
        self.stats.sim_time = self.sim.now

    def brought_for(self, rs):
        return [self.rules.start] * self.rules.n if rs else self.table.stacks()

    def begin_hand(self):
        t, k = self.t, self.knobs
        if self.tr.hands >= self.max_hands:
            self.ended = True
            self.sim.queue[:] = [e for e in self.sim.queue if False]
            return
        if k["trick"] and t.chance(k["trick"]):
            self.house_stack()
        if self.tr.hands and k["rebuy"] and t.chance(k["rebuy"]):
            for _ in range(1 + t.draw(3)):
                seat = t.draw(self.rules.n)
                chips = t.weighted([(2, self.rules.start), (2, 0), (3, t.between(1, 3 + 2 * self.rules.bb))])
                self.do(("rebuy", seat, chips))
            self.stats.fault("re-buy or cash-out")
        rb = t.chance(k["reset_button"])
        rs = t.chance(k["reset_stacks"])
        stacks = self.table.stacks()
        if not rs and sum(1 for s in stacks if s > 0) < 2:
            if self.tr.hands and t.chance(70):
                self.do(("reset", rb, False, stacks))
                self.stats.fault("new hand refused: too few players")
                if self.t.chance(20):
                    self.do(("reset", not rb, False, stacks))
            rs = True
        self.deal(rb, rs)

    def deal(self, rb, rs):
        res = self.do(("reset", rb, rs, self.brought_for(rs)))
        if res.exc is not None:
            self.ended = True
            return
        self.seen_hand = self.tr.hands
        self.prompt(res.obs)

    def house_stack(self):
        t = self.t
        if self.stacked and t.chance(30):
            self.do(("untrick",))
            self.stacked = None
            return
        deck = list(self.rules.deck)
        full = t.weighted([(3, "some"), (2, "all"), (2, "tie"), (1, "none"), (1, "one less"),
                           (2, "extreme")])
        if full == "tie":
            top = self.tie_deck()
        elif full == "extreme":
            top = self.extreme_deck()
        else:
            order = t.shuffled(deck) if full in ("all", "one less") or t.chance(50) else None
            if order is None:
                order = [c for c in deck]
            if full == "all":
                top = order
            elif full == "one less":
                top = order[:-1]
            elif full == "none":
                top = []
            else:
                top = order[: 1 + t.draw(min(len(order), 12))]
        self.do(("trick", top))
        self.stacked = top
        self.stats.fault("stacked deck (%s)" % full)

    def bad_stack(self):
        """stack the deck with a card it does not have"""
        t = self.t
        deck = list(self.rules.deck)
        other = [r + s for r in model.RANKS for s in model.SUITS if r + s not in deck]
        odd = t.pick(["None", "'AS'", "7"] + ([t.pick(other)] * 5 if other else []))
        self.do(("badtrick", t.shuffled(deck)[:t.draw(min(len(deck), 9))], odd))
        self.stats.fault("deck stacked with what it does not have")

    def tie_deck(self):
        """a deck order which makes equal hands likely: the same ranks for
        several players and a strong board"""
        t = self.t
        r = self.rules
        left = list(r.deck)
        by_rank = {}
        for c in left:
            by_rank.setdefault(c[0], []).append(c)
        ranks = t.shuffled(sorted(by_rank, key=model.RANKS.index))
        holes = []
        base = ranks[: r.holes] if len(ranks) >= r.holes else ranks
        for seat in range(r.n):
            hand = []
            for i in range(r.holes):
                want = by_rank[base[i % len(base)]]
                if want and not t.chance(25):
                    c = want.pop(0)
                else:
                    rest = [c for cs in by_rank.values() for c in cs]
                    c = t.pick(rest)
                    by_rank[c[0]].remove(c)
                hand.append(c)
            holes += hand
        rest = sorted((c for cs in by_rank.values() for c in cs),
                      key=lambda c: -model.RANKS.index(c[0]))
        total = sum(r.ncc)
        board = rest[:total] if t.chance(50) else t.shuffled(rest)[:total]
        return board[: r.ncc[0]] + holes + board[r.ncc[0]:]

    def extreme_deck(self):
        """a deck order which gives several players the weakest or strongest hand of all"""
        t = self.t
        r = self.rules
        deck = list(r.deck)
        n = r.ranker.n
        low = sorted(deck, key=lambda c: model.RANKS.index(c[0]))[: (n + 2) * r.ranker.suits]
        tries = [t.shuffled(low if t.chance(60) else deck)[:n] for _ in range(24)]
        pick = max if t.chance(30) else min
        want = [c[0] for c in pick(tries, key=r.ranker.strength5)]
        left = t.shuffled(deck)

        def take(rank):
            for c in left:
                if c[0] == rank:
                    left.remove(c)
                    return c
            return left.pop()

        # what has to come from the players' own cards, and the rest of the hand
        own = r.ranker.mand or min(r.holes, n)
        total = sum(r.ncc)
        board = [take(x) for x in want[own:]][:total]
        while len(board) < total:
            board.append(take(t.pick(want)) if t.chance(50) else left.pop())
        holes = []
        for _ in range(r.n):
            hand = [take(x) for x in want[:own]][: r.holes]
            while len(hand) < r.holes:
                hand.append(take(t.pick(want)))
            holes += hand
        return board[: r.ncc[0]] + holes + board[r.ncc[0]:]

    def prompt(self, obs):
        """send the observation to the player to act, start the turn clock"""
        t, k = self.t, self.knobs
        self.turn += 1
        turn = self.turn
        seat = obs["action"]
        self.sim.cancel(self.timer)
        if seat < 0 or seat >= self.rules.n:
            return
        bet = self.gen_bet(seat, obs)
        delay = 0.2 + t.draw(8) * 0.3
        if k["drop"] and t.chance(k["drop"]):
            self.stats.fault("bet lost, turn timed out")
        else:
            self.sim.after(delay, lambda: self.arrive(turn, bet))
        if k["dup"] and t.chance(k["dup"]):
            extra = t.pick([0.1, 0.5, 1.5, 4.0, 9.0])
            self.sim.after(delay + extra, lambda: self.arrive(turn, bet, True))
        limit = 1.5 if k["drop"] and t.chance(20) else 6.0
        self.timer = self.sim.after(limit, lambda: self.timeout(turn))

    def arrive(self, turn, bet, dup=False):
        t, k = self.t, self.knobs
        if self.ended:
            return
        if dup or turn != self.turn:
            if k["strict"] and t.chance(k["strict"]):
                self.stats.fault("stale bet ignored by the room")
                return
            self.stats.fault("duplicated bet delivered" if dup else "late bet delivered")
        if k["trick"] and self.tr.in_progress and t.chance(2):
            self.house_stack()
            self.stats.fault("deck stacked or unstacked in mid-hand")
        if k["corrupt"] and t.chance(k["corrupt"]):
            name = t.pick(UNUSABLE)[0]
            self.stats.fault("unusable bet")
            self.do(("bad", name))
        if k["midreset"] and self.tr.in_progress and t.chance(k["midreset"]):
            self.stats.fault("table restarted in mid-hand")
            stacks = self.table.stacks()
            rs = self.t.chance(30) or sum(1 for s in stacks if s > 0) < 2
            if sum(1 for s in stacks if s > 0) < 2 and self.t.chance(60):
                self.do(("reset", False, False, stacks))
                self.stats.fault("new hand refused: too few players")
                if self.t.chance(50):
                    rs = None
            if rs is not None:
                self.deal(self.t.chance(20), rs)
                return
        if k["refused"] and self.tr.in_progress:
            stacks = self.table.stacks()
            if sum(1 for s in stacks if s > 0) < 2 and t.chance(k["refused"]):
                self.stats.fault("new hand refused: too few players")
                self.do(("reset", self.t.chance(30), False, stacks))
        self.step(bet)

    def timeout(self, turn):
        if self.ended or turn != self.turn or not self.tr.in_progress:
            return
        self.stats.fault("turn timed out")
        self.step(-1 if self.t.draw(2) else 0)

    def step(self, bet):
        t, k = self.t, self.knobs
        was_over = not self.tr.in_progress
        res = self.do(("step", bet))
        if res.exc is not None:
            self.ended = True
            return
        if was_over:
            self.stats.fault("bet after the end of the hand")
            return
        if k["hostile"] and t.chance(k["hostile"]):
            self.do(("hostile", t.draw(64)))
        if self.tr.over:
            self.sim.cancel(self.timer)
            if k["after_end"]:
                for _ in range(t.draw(4)):
                    if t.chance(k["after_end"]):
                        bet2 = t.pick([0, bet, -1, 10 ** 6, 1, 2.25] + k["end_bets"])
                        self.sim.after(0.1 + 0.2 * t.draw(8),
                                       lambda b=bet2: self.arrive(-1, b, True))
            hand = self.tr.hands
            self.sim.after(2.5 + t.draw(3) * 4.0, lambda: self.next_hand(hand))
        elif self.tr.lost and self.tr.steps > 3000:
            self.ended = True
        else:
            self.prompt(res.obs)

    def next_hand(self, hand):
        if not self.ended and self.tr.hands == hand and self.tr.over:
            self.begin_hand()

    def spectate(self):
        t, k = self.t, self.knobs
        if self.ended:
            return
        if self.tr.hands and self.tr.hands <= self.max_hands:
            if k["passive"] and t.chance(k["passive"]):
                what = t.weighted([(3, "text"), (3, "render")])
                self.do((what,))
            if k["broken_out"] and t.chance(k["broken_out"]):
                self.do(("broken", t.draw(1200),
                         t.pick(["BrokenPipeError", "OSError", "KeyError"])))
                self.stats.fault("output failed while rendering")
            if k["badtrick"] and t.chance(k["badtrick"]):
                self.bad_stack()
            if k["badmode"] and t.chance(k["badmode"]):
                self.do(("badmode", t.pick(MODES)))
                self.stats.fault("unknown render mode")
            if k["winp"] and self.tr.in_progress and t.chance(k["winp"]):
                cost = self.winp_cost()
                if cost <= min(self.winp_left, self.prof.get("winp_cost", 4000)):
                    self.winp_left -= cost
                    self.do(("winp",))
        self.sim.after(0.3 + 0.4 * t.draw(6), self.spectate)

    def winp_cost(self):
        from math import comb
        r = self.rules
        missing = sum(r.ncc) - len(self.tr.board)
        left = len(r.deck) - r.n * r.holes - len(self.tr.board)
        if missing < 0 or left < missing:
            return float("inf")
        return comb(left, missing) * sum(self.tr.active) * max(1, genconf._cost(self.cfg))

    # ------------------------------------------------- faults stop, bounded end
    def calm(self):
        """network healed, everybody checks or calls: the hand must end"""
        self.ended = True
        self.stop_faults = True
        if not self.tr.in_progress or self.table is None:
            return
        r = self.rules
        bound = (r.streets + 1) * r.n + 1
        self.trace("faults stop; everybody checks or calls")
        for _ in range(bound):
            res = self.do(("step", self.tr.offers[0]))
            if res.exc is not None or not self.tr.in_progress:
                return
        self.checker.stuck(self, bound)

    # --------------------------------------------------------- hostile receivers
    def vandalise(self, tb, op):
        from .table import Res
        target = self.checker.raw_results(self)
        if target:
            how = op[1]
            raw = target[how % len(target)]
            for lst in _lists(raw):
                mode = (how // 7) % 4
                if mode == 0:
                    lst.clear()
                elif mode == 1:
                    lst.reverse()
                    lst.append(lst[0] if lst else 0)
                elif mode == 2:
                    for i in range(len(lst)):
                        lst[i] = lst[i - 1] if i else 0
                else:
                    lst[:] = lst[1:]
            self.stats.fault("receiver overwrote what it was given")
        return Res()


def _lists(raw):
    out = []

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
            out.append(x)
        elif isinstance(x, dict):
            for key in sorted(x):
                walk(x[key])
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(raw)
    return out
