"""Oracles over the simulated room, one class per property."""
import re

from . import model
from .core import Violation


class Checker:
    prop = "?"
    # calls whose failure breaks this property
    must_return = ("step", "reset")

    def __init__(self):
        self.judged = 0

    def bad(self, cls, msg):
        raise Violation(self.prop, cls, msg)

    def known(self, room, cls, msg):
        """a listed finding was met: count it and go on; unlisted: violation"""
        from . import runner
        if runner.is_known((self.prop, cls, msg), runner.load_known()):
            room.stats.probe("known finding met: " + cls)
        else:
            self.bad(cls, msg)

    def start(self, room):
        pass

    def before(self, room, op):
        pass

    def after(self, room, op, res):
        if res.exc is not None:
            self.failed(room, op, res)
            return
        self.check(room, op, res)

    def expected_refusal(self, room, op):
        k = op[0]
        if k == "reset":
            return not op[2] and sum(1 for s in op[3] if s > 0) < 2
        if k in ("bad", "badmode", "badtrick", "broken"):
            return True
        if k == "step":
            return room.tr.hands == 0
        return False

    def failed(self, room, op, res):
        if self.expected_refusal(room, op):
            return
        if op[0] in self.must_return:
            e = res.exc
            self.bad("failure " + type(e).__name__, "%s raised %s: %s" % (
                room.op_text(op), type(e).__name__, e))

    def check(self, room, op, res):
        pass

    def finish(self, room):
        pass

    def stuck(self, room, bound):
        pass

    def raw_results(self, room):
        return []


class C01(Checker):
    prop = "C01"

    def check(self, room, op, res):
        kind = op[0]
        if kind not in ("reset", "step"):
            return
        tb, tr, o = room.table, room.tr, res.obs
        if tr.hands == 0:
            return
        self.judged += 1
        stacks, pot = tb.stacks(), tb.pot()
        if any(s < 0 for s in stacks) or pot < 0 or any(c < 0 for c in o["street_commits"]):
            self.bad("negative", "negative chips: stacks %s pot %s commitments %s" % (
                stacks, pot, o["street_commits"]))
        if kind == "step" and room.exp is None:
            return  # finished hand: C06
        brought = tr.brought
        total = sum(brought)
        if sum(stacks) + pot != total:
            self.bad("sum", "brought %s (%d chips) but stacks %s + pot %s = %d" % (
                brought, total, stacks, pot, sum(stacks) + pot))
        if o["pot"] != pot or o["stacks"] != stacks:
            self.bad("obs", "observation says stacks %s pot %s, table says %s %s" % (
                o["stacks"], o["pot"], stacks, pot))
        if kind == "reset":
            self.prev = stacks
            return
        if tr.in_progress:
            for i in range(room.rules.n):
                put = brought[i] - stacks[i]
                if put < 0:
                    self.bad("put", "player %d has more than they brought in mid-hand" % i)
                if o["street_commits"][i] > put:
                    self.bad("commit", "player %d: street commitment %d above contribution %d"
                             % (i, o["street_commits"][i], put))
                if i != room.exp.actor_before and stacks[i] != self.prev[i]:
                    self.bad("other", "player %d's stack changed from %s to %s when %d acted"
                             % (i, self.prev[i], stacks[i], room.exp.actor_before))
            self.prev = stacks
        else:
            p = res.payouts
            if pot != 0 or sum(p) != 0:
                self.bad("settle", "hand over with pot %s and payouts %s" % (pot, p))
            if [b + x for b, x in zip(brought, p)] != stacks:
                self.bad("settle stacks", "brought %s payouts %s but stacks %s" % (
                    brought, p, stacks))


class C02(Checker):
    prop = "C02"

    def check(self, room, op, res):
        tr, o = room.tr, res.obs
        if op[0] not in ("reset", "step") or tr.hands == 0 or tr.lost:
            return
        if op[0] == "step":
            e = room.exp
            if e is None:
                return
            if tr.in_progress:
                fold, amount = model.decide(op[1], self.offers)
                if (e.fold, e.amount) != (fold, amount):
                    self.bad("rounding", "offered call/min/max %s, bet %r should %s, but table took %s%s"
                             % (self.offers, op[1],
                                "fold" if fold else "put in %d" % amount, e.amount,
                                " and folded" if e.fold else ""))
            else:
                # hand over: judge the fold flag of the actor
                fold, _ = model.decide(op[1], self.offers)
                was = self.active[e.actor_before]
                now = room.table.active()[e.actor_before]
                if was and fold == now:
                    self.bad("fold", "offered %s, bet %r should %s" % (
                        self.offers, op[1], "fold" if fold else "not fold"))
        self.judged += 1
        if not tr.in_progress:
            if o["call"] or o["min_raise"] or o["max_raise"]:
                self.bad("offer after end", "sizes offered after the hand: %s" % o)
            return
        want = tr.model_offers()
        got = (o["call"], o["min_raise"], o["max_raise"])
        self.offers = got
        self.active = list(tr.active)
        if got != want:
            self.bad("offer", "street %d raise size %s cap %s, largest raise %s, raises %s, "
                     "stacks %s commits %s pot %s to act %s: offered call/min/max %s, rules say %s"
                     % (tr.street, room.rules.raise_sizes[tr.street],
                        room.rules.num_raises[tr.street], tr.largest, tr.raises,
                        tr.stacks, tr.commits, tr.pot, tr.actor, got, want))
        if got[1] > got[2]:
            self.bad("min above max", "offered min %d above max %d" % got[1:])


class C03(Checker):
    prop = "C03"

    def check(self, room, op, res):
        tr, o, tb = room.tr, res.obs, room.table
        if op[0] not in ("reset", "step") or tr.hands == 0 or tr.lost and op[0] == "step" and tr.in_progress and False:
            return
        r = room.rules
        if op[0] == "reset":
            self.board = tb.board()
            return
        e = room.exp
        if e is None:
            return
        self.judged += 1
        board = tb.board()
        if board[: len(self.board)] != self.board:
            self.bad("board", "the board changed from %s to %s" % (self.board, board))
        new = len(board) - len(self.board)
        over = all(res.done)
        if over != e.over:
            self.bad("over", "hand %s over, rules say it %s (street %d of %d, live %s, stacks %s)" % (
                "is" if over else "is not", "is" if e.over else "is not",
                e.street, r.streets, e.active, e.stacks))
        if res.done != e.done:
            self.bad("done", "done flags %s, rules say %s" % (res.done, e.done))
        if not (over and e.foldout) and new != e.draws:
            self.bad("cards", "%d community cards dealt, expected %d (street %d)" % (
                new, e.draws, self_street(room)))
        if not over:
            if o["street_commits"] != e.commits_after:
                self.bad("round", "betting round %s: commitments %s, expected %s" % (
                    "should have closed" if e.closed else "should go on",
                    o["street_commits"], e.commits_after))
            if o["action"] != e.actor:
                self.bad("turn", "turn given to seat %s, expected %s (button %d, live %s)" % (
                    o["action"], e.actor, tr.button, e.active))
        else:
            if o["action"] != -1:
                self.bad("turn", "hand over but seat %s to act" % o["action"])
        self.board = board


def self_street(room):
    return getattr(room, "prev_street", 0)


class C04(Checker):
    prop = "C04"
    must_return = ("step", "reset")

    def check(self, room, op, res):
        tr = room.tr
        if op[0] == "reset" and tr.hands:
            self.bound_chips = sum(tr.brought)
            self.idle = 0
            self.round_key = None
            return
        if op[0] != "step" or room.exp is None:
            return
        self.judged += 1
        if not tr.in_progress:
            return
        r = room.rules
        limit = (self.bound_chips + r.streets + 1) * (r.n + 1)
        if tr.steps > limit:
            self.bad("endless", "%d actions with %d chips in play" % (tr.steps, self.bound_chips))
        live = sum(tr.active)
        folded_since = r.n  # folds also shorten the orbit
        if tr.passive > folded_since:
            self.bad("orbit", "no raise for %d actions with %d players and the round is still open"
                     % (tr.passive, live))

    def stuck(self, room, bound):
        if room.tr.lost:
            return
        self.bad("stuck", "everybody only checked or called for %d actions and the hand goes on"
                 % bound)


class C05(Checker):
    prop = "C05"

    def check(self, room, op, res):
        tr = room.tr
        if op[0] != "step" or room.exp is None or tr.in_progress:
            return
        e = room.exp
        if tr.lost:
            return
        self.judged += 1
        r = room.rules
        live = [i for i in range(room.rules.n) if e.active[i]]
        strengths = [None] * room.rules.n
        hands = tr.holes
        if len(live) > 1:
            board = room.table.board()
            if len(board) != sum(room.rules.ncc):
                return  # C03
            for i in live:
                strengths[i] = room.rules.ranker.best(hands[i], board)
            tie = len({strengths[i] for i in live}) < len(live)
            room.stats.probe("showdown with equal hands" if tie else "showdown, all different")
            levels = {e.contrib[i] for i in live}
            if len(levels) > 1:
                room.stats.probe("side pots")
            top = max(e.contrib[i] for i in live)
            if any(c > top for c in e.contrib):
                room.stats.probe("folded chips above every live contribution")
        want = model.settle(e.contrib, e.active, strengths, tr.button)
        if res.payouts != want and len(live) > 1 and r.ranker_code is not r.ranker:
            alt = [r.ranker_code.best(hands[i], room.table.board()) if i in live else None
                   for i in range(r.n)]
            want2 = model.settle(e.contrib, e.active, alt, tr.button)
            if res.payouts == want2:
                self.known(room, "trips-in-three-suits",
                           "three suits, %d ranks, %d-card hands: payouts %s, by rarity %s" % (
                               r.cfg["num_ranks"], r.cfg["num_cards_for_hand"], res.payouts, want))
                want = want2
        if res.payouts != want:
            self.bad("payout", "contributions %s live %s button %d board %s hands %s: payouts %s, rules say %s"
                     % (e.contrib, live, tr.button, room.table.board(),
                        [(h, strengths[i]) for i, h in enumerate(hands) if i in live],
                        res.payouts, want))
        if room.table.stacks() != [b + w for b, w in zip(tr.brought, want)]:
            self.bad("stacks", "payouts %s not added to stacks: brought %s now %s" % (
                want, tr.brought, room.table.stacks()))


class Twin(Checker):
    """runs a second table without some of the calls and compares"""

    def dropped(self, room, op, res):
        return False

    def start(self, room):
        self.twin = room.make_table()
        self.compare_fp = True

    def after(self, room, op, res):
        if not self.dropped(room, op, res):
            tres = room.execute(self.twin, op) if op[0] != "hostile" else None
            if tres is not None and op[0] in ("reset", "step", "winp", "text"):
                self.judged += 1
                if tres.key() != res.key():
                    self.bad("twin", "%s: with the disturbance: %s; without it: %s" % (
                        room.op_text(op), res.brief() if op[0] != "text" else "\n" + str(res.text),
                        tres.brief() if op[0] != "text" else "\n" + str(tres.text)))
        Checker.after(self, room, op, res)

    def finish(self, room):
        a, b = room.table.fingerprint(), self.twin.fingerprint()
        if a != b:
            diff = {k: (a[k], b.get(k)) for k in a if a[k] != b.get(k)}
            self.bad("twin end", "tables differ at the end: %s" % diff)


class C06(Twin):
    prop = "C06"

    def dropped(self, room, op, res):
        return op[0] == "step" and room.exp is None

    def start(self, room):
        Twin.start(self, room)
        # a bet before the first hand
        fp = room.table.fingerprint()
        res = room.do(("step", room.t.pick([0, 1, -1, 2.5])))
        if res.exc is None:
            self.bad("before first hand", "a bet before the first hand was accepted: %s" % res.brief())
        if room.table.fingerprint() != fp:
            self.bad("before first hand", "a refused bet before the first hand changed the table")

    def before(self, room, op):
        if op[0] == "step" and room.exp is None and room.tr.hands:
            self.fp = room.table.fingerprint()

    def failed(self, room, op, res):
        if op[0] == "step" and room.tr.hands:
            self.bad("failure", "%s raised %r" % (room.op_text(op), res.exc))

    def check(self, room, op, res):
        if op[0] != "step" or room.exp is not None or not room.tr.hands:
            return
        tr = room.tr
        self.judged += 1
        fin = tr.final
        if fin is None:
            return
        if room.table.fingerprint() != self.fp:
            now = room.table.fingerprint()
            self.bad("changed", "bet %r after the end changed %s" % (op[1], {
                k: (self.fp[k], now[k]) for k in now if now[k] != self.fp.get(k)}))
        for what in ("payouts", "done"):
            if getattr(res, what) != getattr(fin, what):
                self.bad(what, "hand ended with %s %s; bet %r afterwards returned %s" % (
                    what, getattr(fin, what), op[1], getattr(res, what)))
        for k in ("stacks", "community_cards", "pot", "action", "button", "active",
                  "call", "min_raise", "max_raise"):
            if res.obs[k] != fin.obs[k]:
                self.bad("obs", "hand ended with %s %s; bet %r afterwards returned %s" % (
                    k, fin.obs[k], op[1], res.obs[k]))
        if not all(res.done):
            self.bad("done", "finished hand reported as going on")
        room.stats.probe("repeat after fold-out" if tr.last.foldout else "repeat after showdown")


class C07(Checker):
    prop = "C07"

    def before(self, room, op):
        if op[0] == "reset":
            self.want = model.Start(room.rules, room.tr.button, op[3], op[1], op[2])

    def after(self, room, op, res):
        if op[0] == "reset" and self.want.refused:
            self.judged += 1
            if res.exc is None:
                self.bad("not refused", "a new hand was dealt with stacks %s" % op[3])
            if type(res.exc).__name__ != "TooFewActivePlayersError":
                self.bad("wrong refusal", "refused with %r" % (res.exc,))
            return
        Checker.after(self, room, op, res)

    def failed(self, room, op, res):
        if op[0] == "reset":
            Checker.failed(self, room, op, res)

    def check(self, room, op, res):
        if op[0] != "reset":
            return
        self.judged += 1
        w, o, tb = self.want, res.obs, room.table
        r = room.rules
        ctx = "stacks %s blinds %s antes %s button %s" % (w.brought, r.blinds, r.antes, w.button)

        def eq(name, got, want):
            if got != want:
                self.bad(name, "%s: %s is %s, rules say %s" % (ctx, name, got, want))
        eq("button", o["button"], w.button)
        eq("players dealt in", tb.active(), w.alive)
        eq("players in observation", o["active"], w.alive)
        eq("stacks", tb.stacks(), w.stacks)
        eq("blind commitments", o["street_commits"], w.commits)
        eq("pot", o["pot"], w.pot)
        eq("first to act", o["action"], w.actor)
        call = min(max(w.commits) - w.commits[w.actor], w.stacks[w.actor])
        eq("call", o["call"], call)
        if any(not a for a in w.alive):
            room.stats.probe("hand with empty seats")
        if any(s == 0 for s, a in zip(w.stacks, w.alive) if a):
            room.stats.probe("player all in from a forced bet")


class C08(Checker):
    prop = "C08"

    def start(self, room):
        self.stack = self.next_stack = None
        self.last_deal = None

    def check(self, room, op, res):
        tb, tr, r = room.table, room.tr, room.rules
        k = op[0]
        if k in ("trick", "untrick"):
            # counts from the next hand on
            self.next_stack = list(op[1]) if k == "trick" else None
            self.last_deal = None
            return
        if not tr.hands or k not in ("step", "reset"):
            return
        if k == "reset":
            self.stack = self.next_stack
        self.judged += 1
        holes, board, deck = tb.holes(), tb.board(), tb.deck()
        allc = sorted([c for h in holes for c in h] + board + deck)
        if allc != sorted(r.deck):
            missing = sorted(set(r.deck) - set(allc))
            dup = sorted(c for c in set(allc) if allc.count(c) > 1)
            self.bad("multiset", "hole+board+deck is not one deck: missing %s duplicated %s foreign %s" % (
                missing, dup, sorted(set(allc) - set(r.deck))))
        if k == "reset":
            if any(len(h) != r.holes for h in holes) or len(holes) != r.n:
                self.bad("holes", "hole cards %s, expected %d each" % (holes, r.holes))
            if len(board) != r.ncc[0]:
                self.bad("board", "board %s at the deal, expected %d cards" % (board, r.ncc[0]))
            self.holes = holes
            self.board = board
            if self.stack is not None:
                flat = [c for h in holes for c in h]
                self.want = self.orders(board, flat)
                if not self.want:
                    self.bad("stacked deal", "deck stacked with %s, dealt board %s and hole cards %s" % (
                        self.stack, board, holes))
                room.stats.probe("hand dealt from a stacked deck")
            else:
                deal = [c for h in holes for c in h] + board + deck
                if len(r.deck) >= 12 and deal == self.last_deal:
                    self.bad("not fresh", "two hands in a row dealt the same deck order")
                self.last_deal = deal
            return
        if holes != self.holes:
            self.bad("holes changed", "hole cards changed from %s to %s" % (self.holes, holes))
        if board[: len(self.board)] != self.board:
            self.bad("board changed", "board changed from %s to %s" % (self.board, board))
        self.board = board
        if self.stack is not None and tr.hands:
            flat = [c for h in holes for c in h]
            n0 = r.ncc[0]
            if not any(self.fits(o) for o in (
                    board[:n0] + flat + board[n0:], flat + board)):
                self.bad("stacked board", "deck stacked with %s, dealt hole cards %s board %s" % (
                    self.stack, holes, board))

    def finish(self, room):
        """the cards a stacked deck says nothing about are shuffled anew for every hand"""
        tb, t, r = room.table, room.t, room.rules
        if len(r.deck) < 20 or not t.chance(15):
            return
        if t.chance(60):
            # stacked again before the hand, also with fewer cards
            for n in (t.draw(9), t.draw(4)):
                order = t.shuffled(list(r.deck))[:n]
                tb.trick(order)
                if t.chance(30):
                    tb.reset(True, True)
            stack = order
            if t.chance(30):
                tb.untrick()
                stack = []
        elif not self.next_stack or len(self.next_stack) <= len(r.deck) - 14:
            stack = self.next_stack or []
        else:
            return
        rests = []
        for _ in range(14):
            if tb.reset(True, True).exc is not None:
                return
            holes, board, deck = tb.holes(), tb.board(), tb.deck()
            flat = [c for h in holes for c in h]
            n = len(stack)
            for order in (board + flat + deck, flat + board + deck):
                if order[:n] == stack:
                    rests.append(order[n:])
                    break
            else:
                self.bad("stacked deal", "deck stacked with %s, dealt board %s and hole cards %s" % (
                    stack, board, holes))
        self.judged += 1
        room.stats.probe("dealt 14 times below %d stacked cards" % len(stack))
        base = sorted(rests[0])
        m = len(base)
        for pos in range(m):
            if len({x[pos] for x in rests}) == 1:
                self.bad("not shuffled", "card %d below the %d stacked cards was %s in 14 hands "
                         "in a row" % (pos + 1, len(stack), rests[0][pos]))
            if pos and len({(base.index(x[pos]) - base.index(x[pos - 1])) % m for x in rests}) == 1:
                self.bad("not shuffled", "cards %d and %d below the %d stacked cards were the same "
                         "distance apart in 14 hands in a row" % (pos, pos + 1, len(stack)))

    def fits(self, order):
        m = min(len(order), len(self.stack))
        return order[:m] == self.stack[:m]

    def orders(self, board, flat):
        return [o for o in (board + flat, flat + board) if self.fits(o)]


class C09(Twin):
    prop = "C09"
    must_return = ()

    def dropped(self, room, op, res):
        return res.exc is not None and op[0] in ("bad", "badmode", "badtrick", "reset", "step")

    def start(self, room):
        Twin.start(self, room)
        for what in (("step", 0), ("bad", room.t.pick(["None", "'x'", "nan"]))):
            if room.t.chance(40):
                room.do(what)

    def before(self, room, op):
        self.fp = None
        k = op[0]
        if k in ("bad", "badmode", "badtrick") or self.expected_refusal(room, op):
            self.fp = room.table.fingerprint()

    def after(self, room, op, res):
        if res.exc is not None and self.fp is not None:
            self.judged += 1
            now = room.table.fingerprint()
            if now != self.fp:
                self.bad("changed", "refused call %s (%s) changed %s" % (
                    room.op_text(op), type(res.exc).__name__,
                    {k: (self.fp.get(k), now[k]) for k in now if now[k] != self.fp.get(k)}))
            room.stats.probe("refused in mid-hand" if room.tr.in_progress else "refused between hands")
        Twin.after(self, room, op, res)


class C10(Twin):
    prop = "C10"

    def dropped(self, room, op, res):
        return op[0] == "hostile"

    def start(self, room):
        Twin.start(self, room)
        self.kept = []
        self.vandal = bool(room.knobs["hostile"])
        self.raws = []
        self.again = False

    def raw_results(self, room):
        return self.raws[-6:]

    def snapshot(self, raw):
        from .table import norm_obs
        if isinstance(raw, tuple):
            return (norm_obs(raw[0]), list(raw[1]), list(raw[2]))
        if isinstance(raw, list):
            return list(raw)
        return norm_obs(raw)

    def keep(self, room, raw):
        self.raws.append(raw)
        if not self.vandal:
            for when, old, was in self.kept[-12:]:
                self.recheck(room, when, old, was)
            self.kept.append((len(room.ops), raw, self.snapshot(raw)))

    def check(self, room, op, res):
        tr, tb, o = room.tr, room.table, res.obs
        if op[0] == "winp" and isinstance(res.raw, list):
            self.keep(room, res.raw)
            self.judged += 1
            if not self.again and room.t.chance(60):
                # the receiver spoils the answer (or not) and asks again
                self.again = True
                if self.vandal:
                    room.do(("hostile", room.t.draw(64)))
                room.do(("winp",))
                self.again = False
        if op[0] in ("step", "reset") and tr.hands:
            self.keep(room, res.raw)
            if not tr.in_progress or (op[0] == "step" and room.exp is None):
                return
            self.judged += 1
            a = o["action"]
            if o["hole_cards"] != tr.holes[a]:
                self.bad("cards", "seat %d to act holds %s but the observation shows %s" % (
                    a, tr.holes[a], o["hole_cards"]))
            for k, want in (("stacks", tb.stacks()), ("active", tb.active()),
                            ("community_cards", tb.board()), ("pot", tb.pot()),
                            ("button", tr.button)):
                if o[k] != want:
                    self.bad(k, "observation says %s %s, the table has %s" % (k, o[k], want))
            if set(map(str, self.strings(res.raw))) & (
                    {c for i, h in enumerate(tr.holes) if i != a for c in h}):
                self.bad("leak", "the observation contains another player's cards: %s" % o)
            if op[0] == "step":
                e = room.exp
                if o["street_commits"] != e.commits_after and not tr.lost:
                    self.bad("commits", "observation says commitments %s, expected %s" % (
                        o["street_commits"], e.commits_after))

    def strings(self, raw):
        obs = raw[0] if isinstance(raw, tuple) else raw
        out = []

        def walk(x):
            if isinstance(x, dict):
                for v in x.values():
                    walk(v)
            elif isinstance(x, (list, tuple, set)):
                for v in x:
                    walk(v)
            elif not isinstance(x, (int, float, bool)) and x is not None:
                out.append(x)
        walk(obs)
        return out

    def recheck(self, room, when, raw, was):
        now = self.snapshot(raw)
        if now != was:
            self.bad("mutated", "the result of call %d changed later: was %s, is %s" % (
                when, was, now))

    def finish(self, room):
        for when, raw, was in self.kept:
            self.recheck(room, when, raw, was)
        Twin.finish(self, room)


class C13(Checker):
    prop = "C13"
    must_return = ("text", "render", "step", "reset")

    def start(self, room):
        self.last = None

    def after(self, room, op, res):
        if res.exc is not None:
            self.failed(room, op, res)
            return
        k = op[0]
        if k == "reset" and room.tr.hands:
            self.last = None
        elif k == "step" and room.exp is not None:
            e = room.exp
            self.last = (e.actor_before, "fold" if e.fold else e.amount)
        elif k == "bad":
            self.last = "unknown"
        if k in ("reset", "step") and room.tr.hands:
            t = room.table.text()
            if t.exc is not None:
                self.bad("failure", "str(dealer) raised %r" % (t.exc,))
            self.judge(room, t.raw)
            if room.t.draw(6) == 5:
                rr = room.table.render("ascii")
                if rr.exc is not None:
                    self.bad("failure", "render raised %r" % (rr.exc,))
                self.judge(room, rr.text or "")
        elif k == "text" and room.tr.hands:
            self.judge(room, res.raw)
        elif k == "render" and room.tr.hands:
            self.judge(room, res.text or "")

    def judge(self, room, text):
        tr, r, tb = room.tr, room.rules, room.table
        if tr.lost:
            return
        self.judged += 1

        def bad(cls, msg):
            self.bad(cls, "%s\n%s" % (msg, text))
        try:
            view = parse_ascii(text, r.n)
        except ValueError as e:
            bad("unreadable", "cannot read the table: %s" % e)
        over = not tr.in_progress
        stacks = tb.stacks()
        board = tb.board()
        active = tb.active()
        if view["board"] != board + ["--"] * (sum(r.ncc) - len(board)):
            bad("board", "board shown %s, is %s" % (view["board"], board))
        if view["pot"] != (0 if over else tr.pot):
            bad("pot", "pot shown %s, is %s" % (view["pot"], 0 if over else tr.pot))
        for i in range(r.n):
            seat = view["seats"].get(i)
            if seat is None:
                bad("seat", "seat %d not shown" % (i + 1))
            if seat["stack"] != stacks[i]:
                bad("stack", "seat %d: stack shown %s, is %s" % (i + 1, seat["stack"], stacks[i]))
            if seat["button"] != (i == tr.button):
                bad("button", "seat %d: button shown %s, is at seat %d" % (
                    i + 1, seat["button"], tr.button + 1))
            holes = tr.holes[i]
            shown = [c for c in seat["cards"] if c not in ("--", "??")]
            if not active[i]:
                if shown:
                    bad("hidden", "seat %d folded or absent but its cards are shown" % (i + 1))
            elif over:
                if seat["cards"] != holes:
                    bad("cards", "seat %d at the end: cards shown %s, are %s" % (
                        i + 1, seat["cards"], holes))
            elif i == tr.actor:
                if seat["cards"] != holes:
                    bad("cards", "seat %d to act: cards shown %s, are %s" % (
                        i + 1, seat["cards"], holes))
            elif shown:
                bad("hidden", "seat %d is not to act but its cards are shown" % (i + 1))
            if not over:
                if seat["number"] != tr.commits[i]:
                    bad("commit", "seat %d: commitment shown %s, is %s" % (
                        i + 1, seat["number"], tr.commits[i]))
                mark = seat["mark"]
                allin = active[i] and stacks[i] == 0
                if allin and mark != "A":
                    bad("all in", "seat %d is all in, marked %r" % (i + 1, mark))
                if not allin and mark != ("X" if i == tr.actor else ""):
                    bad("actor", "seat %d marked %r, to act is seat %d" % (
                        i + 1, mark, tr.actor + 1))
            else:
                if seat["number"] != tr.final.payouts[i]:
                    bad("payout", "seat %d: payout shown %s, is %s" % (
                        i + 1, seat["number"], tr.final.payouts[i]))
        if not over:
            if view["to_act"] != tr.actor:
                bad("actor text", "text says seat %s acts, it is seat %d" % (
                    view["to_act"], tr.actor + 1))
            if self.last != "unknown" and view["last"] != self.last:
                bad("last action", "text says last action %s, it was %s" % (view["last"], self.last))
            if view["winners"]:
                bad("winners early", "winners named before the end")
        else:
            want = [(i, p) for i, p in enumerate(tr.final.payouts) if p > 0]
            if view["winners"] != want:
                bad("winners", "winners named %s, are %s" % (view["winners"], want))
            room.stats.probe("end of hand read (fold-out)" if tr.last.foldout else
                             "end of hand read (showdown)")


SEAT = re.compile(r"(\d+)\. ((?:(?:\?\?|--|[2-9TJQKA][\u2660\u2665\u2666\u2663])(?:,|(?= )))+) (-?[\d,]+)")
NUM = re.compile(r"-?\d[\d,]*")


def _int(s):
    return int(s.replace(",", ""))


def parse_ascii(text, n):
    """read the printed table back"""
    lines = text.split("\n")
    view = {"seats": {}, "board": None, "pot": None, "to_act": None,
            "last": None, "winners": []}
    i = 0
    while i < len(lines):
        line = lines[i]
        found = list(SEAT.finditer(line))
        if found:
            nxt = lines[i + 1] if i + 1 < len(lines) else ""
            mid = len(nxt) // 2
            for m in found:
                left = m.start() < len(line) // 2 - 2
                half = nxt[:mid] if left else nxt[mid:]
                half = re.sub(r"[\\/|]", " ", half)
                nums = NUM.findall(half)
                if len(nums) != 1:
                    raise ValueError("no single amount below seat %s: %r" % (m.group(1), half))
                letters = [x for x in half.split() if x in ("D", "A", "X")]
                seat = int(m.group(1)) - 1
                if seat in view["seats"]:
                    raise ValueError("seat %d shown twice" % (seat + 1))
                marks = [x for x in letters if x != "D"]
                view["seats"][seat] = {
                    "cards": [c for c in m.group(2).strip().split(",") if c],
                    "stack": _int(m.group(3)),
                    "number": _int(nums[0]),
                    "button": "D" in letters,
                    "mark": marks[0] if marks else "",
                }
            i += 2
            continue
        m = re.search(r"\[([^\]]*)\]", line)
        if m and view["board"] is None:
            view["board"] = [c for c in m.group(1).split(",") if c]
            rest = re.sub(r"[\\/|]", " ", line[m.end():])
            nums = NUM.findall(rest)
            if not nums:
                nxt = re.sub(r"[\\/|]", " ", lines[i + 1]) if i + 1 < len(lines) else ""
                nums = NUM.findall(nxt)
            if nums:
                view["pot"] = _int(nums[0])
        m = re.search(r"Action on Player (\d+)", line)
        if m:
            view["to_act"] = int(m.group(1)) - 1
            p = re.search(r"Player (\d+) (folded|checked|bet (-?[\d,.]+))", line)
            if p:
                what = p.group(2)
                if what == "folded":
                    act = "fold"
                elif what == "checked":
                    act = 0
                else:
                    act = _int(p.group(3).rstrip("."))
                view["last"] = (int(p.group(1)) - 1, act)
        m = re.search(r"Players? ([\d, ]+) won ([\d, ]+?)(?: respectively)?\s*$", line)
        if m:
            who = [int(x) - 1 for x in m.group(1).split(",")]
            amt = [int(x) for x in m.group(2).split(",")]
            if len(who) != len(amt):
                raise ValueError("winners and amounts differ in number")
            view["winners"] = list(zip(who, amt))
        i += 1
    if view["board"] is None:
        raise ValueError("no board")
    return view


class C14(Twin):
    prop = "C14"
    must_return = ("step", "reset")
    PASSIVE = ("text", "render", "winp", "broken", "abort")

    def dropped(self, room, op, res):
        return op[0] in self.PASSIVE


class C15(Checker):
    prop = "C15"
    must_return = ("winp",)

    def check(self, room, op, res):
        if op[0] != "winp" or room.tr.lost:
            return
        self.judged += 1
        r, tr, tb = room.rules, room.tr, room.table
        want = win_probs(r, tr.holes, tb.active(), tb.board())
        got = res.value
        if len(got) != r.n:
            self.bad("shape", "%d probabilities for %d seats" % (len(got), r.n))
        for i in range(r.n):
            if not (abs(got[i] - want[i]) < 1e-9):
                self.bad("value", "board %s live %s holes %s: probabilities %s, exact %s" % (
                    tb.board(), tb.active(), tr.holes, got, want))
        if abs(sum(got) - 1) > 1e-9:
            self.bad("sum", "probabilities %s sum to %s" % (got, sum(got)))
        for i in range(r.n):
            if not tb.active()[i] and got[i] != 0:
                self.bad("folded", "seat %d is out but has probability %s" % (i, got[i]))
        room.stats.probe("asked with %d board cards to come" % (sum(r.ncc) - len(tb.board())))
        if sum(tb.active()) < r.n:
            room.stats.probe("asked with somebody out")


def win_probs(r, holes, active, board):
    import itertools
    used = set(c for h in holes for c in h) | set(board)
    left = [c for c in r.deck if c not in used]
    missing = sum(r.ncc) - len(board)
    won = [0] * r.n
    live = [i for i in range(r.n) if active[i]]
    for extra in itertools.combinations(left, missing):
        full = tuple(board) + extra
        s = {i: r.ranker_code.best(tuple(holes[i]), full) for i in live}
        top = max(s.values())
        for i in live:
            if s[i] == top:
                won[i] += 1
    total = sum(won)
    return [w / total for w in won]
