"""C12: simulated threads.  Each thread is a greenlet; the scheduler preempts it
in front of any statement of clubs, as the tape says."""
import copy
import random
import sys

import greenlet

from . import genconf, loader, model
from .core import Stats, Violation
from .table import Table


class Thread:
    def __init__(self, sched, ident, body):
        self.sched = sched
        self.ident = ident
        self.body = body
        self.g = greenlet.greenlet(self._run, parent=sched.hub)
        self.done = False
        self.error = None
        self.random_state = None
        self.stdout = sys.stdout
        self.points = 0

    def _run(self):
        try:
            self.body()
        except Exception as e:  # noqa
            self.error = e
        self.done = True


class Scheduler:
    """cooperative scheduler with forced preemption at statement boundaries"""

    def __init__(self, tape, stats, trace, mean):
        self.t = tape
        self.stats = stats
        self.trace = trace
        self.mean = mean
        self.hub = greenlet.getcurrent()
        self.current = None
        self.left = 0
        self.switches = 0
        self.max_switches = 400
        self.lockstep = tape.draw(5) == 4
        if self.lockstep:
            self.max_switches = 2500
            stats.probe("threads in lockstep")

    def point(self):
        """called in front of every clubs statement"""
        cur = self.current
        if cur is None or greenlet.getcurrent() is not cur.g:
            return
        cur.points += 1
        if self.left > 0:
            self.left -= 1
            return
        if self.switches >= self.max_switches:
            return
        self.hub.switch()

    def quantum(self):
        if self.lockstep:
            return self.t.draw(10) if self.switches < self.max_switches else 10 ** 9
        k = self.t.draw(4)
        if k == 0:
            return 10 ** 9  # run to completion
        if k == 1:
            return self.t.draw(8)
        if k == 2:
            return self.t.draw(60)
        return self.t.draw(self.mean)

    def run(self, threads):
        main_random = random.getstate()
        main_out = sys.stdout
        loader.set_yield(self.point)
        try:
            for th in threads:
                th.random_state = main_random
            while True:
                alive = [th for th in threads if not th.done]
                if not alive:
                    break
                th = alive[self.t.draw(len(alive))]
                self.left = self.quantum()
                self.current = th
                random.setstate(th.random_state)
                sys.stdout = th.stdout
                before = th.points
                th.g.switch()
                th.random_state = random.getstate()
                th.stdout = sys.stdout
                self.current = None
                self.switches += 1
                if not th.done:
                    self.stats.fault("preemption inside clubs code")
                self.trace("thread %d ran %d statements%s" % (
                    th.ident, th.points - before, "" if not th.done else ", finished"))
        finally:
            loader.set_yield(None)
            self.current = None
            random.setstate(main_random)
            sys.stdout = main_out


class Program:
    """what one thread does: a table played by pre-drawn choices, or evaluations
    on a shared evaluator; results do not depend on the tape"""

    def __init__(self, t, clubs, prof):
        self.label, self.cfg = genconf.gen(t, clubs, prof)
        self.own_cfg = copy.deepcopy(self.cfg)
        self.table = None
        self.seed = t.draw(1 << 30)
        self.hands = 1 + t.draw(2)
        self.moves = [t.draw(12) for _ in range(24)]
        self.stack = t.chance(30)
        self.look = t.draw(4)

    def text(self):
        return "table %s %s seed %d" % (self.label, self.cfg, self.seed)

    def build(self, clubs, alone=False):
        return Table(clubs, self.own_cfg if alone else self.cfg, self.seed, alone)

    def run(self, clubs, out, alone=False):
        tb = self.table if self.table is not None and not alone else self.build(clubs, alone)
        r = model.Rules.__new__(model.Rules)  # only the deck is needed
        r.deck = model.full_deck(self.cfg["num_suits"], self.cfg["num_ranks"])
        out.append(("built", tb.deck()))
        if self.stack:
            order = list(r.deck)
            random.Random(self.seed).shuffle(order)
            tb.trick(order)
        k = 0
        for hand in range(self.hands):
            res = tb.reset(False, hand > 0 and sum(1 for s in tb.stacks() if s > 0) < 2)
            out.append(("reset", res.key(), tb.holes(), tb.board()))
            if res.exc is not None:
                return
            obs = res.obs
            for _ in range(40):
                m = self.moves[k % len(self.moves)]
                k += 1
                bet = [obs["call"], obs["call"], obs["call"], obs["min_raise"], -1,
                       obs["max_raise"], obs["stacks"][obs["action"]], obs["call"],
                       (obs["min_raise"] + obs["max_raise"]) // 2, 0,
                       obs["min_raise"] + 1, obs["call"]][m]
                res = tb.step(bet)
                out.append(("step", bet, res.key(), tb.board()))
                if res.exc is not None:
                    return
                obs = res.obs
                if self.look == 1 and m % 3 == 0:
                    out.append(("text", tb.text().text))
                if self.look == 2 and m % 3 == 0:
                    out.append(("render", tb.render("ascii").text))
                if all(res.done):
                    break
        out.append(("end", sorted(tb.fingerprint().items(), key=lambda kv: kv[0])))


class EvalProgram:
    """evaluations on an evaluator shared with other threads"""

    def __init__(self, t, cfg, box):
        self.cfg = cfg
        self.box = box
        deck = model.full_deck(cfg["num_suits"], cfg["num_ranks"])
        self.hands = []
        total = sum(model.norm_list(cfg["num_community_cards"], cfg["num_streets"]))
        for _ in range(2 + t.draw(6)):
            cs = t.shuffled(deck)[: cfg["num_hole_cards"] + total]
            self.hands.append((cs[: cfg["num_hole_cards"]], cs[cfg["num_hole_cards"]:]))

    def text(self):
        return "evaluations on a shared evaluator, %d hands" % len(self.hands)

    def run(self, clubs, out, alone=False):
        ev = self.box(clubs)
        L = model.SUIT_LETTER
        for hole, board in self.hands:
            h = [clubs.Card(c[0] + L[c[1]]) for c in hole]
            b = [clubs.Card(c[0] + L[c[1]]) for c in board]
            rank = ev.evaluate(h, b)
            out.append((hole, board, rank, ev.get_rank_class(rank)))


def run(clubs, tape, out, prof):
    t = tape
    st = out.stats
    n = t.between(2, 3)
    progs = []
    shared = None
    if t.chance(50):
        _, cfg = genconf.gen(t, clubs, prof)
        made = {}

        def box(cl):
            if id(cl) not in made:
                made[id(cl)] = (cl.Evaluator(
                    cfg["num_suits"], cfg["num_ranks"], cfg["num_cards_for_hand"],
                    cfg["mandatory_num_hole_cards"],
                    low_end_straight=cfg["low_end_straight"], order=cfg["order"]), cl)
            return made[id(cl)][0]
        shared = box
        for _ in range(2):
            progs.append(EvalProgram(t, cfg, box))
        st.probe("shared evaluator")
        if t.chance(50):
            progs.append(Program(t, clubs, prof))
    else:
        for _ in range(n):
            progs.append(Program(t, clubs, prof))
        if t.chance(40):  # same configuration, other deals
            for p in progs[1:]:
                p.cfg = progs[0].cfg
                p.own_cfg = progs[0].own_cfg
            st.probe("same configuration in all threads")
    for i, p in enumerate(progs):
        out.log.append("thread %d: %s" % (i, p.text()))
    if shared is not None:
        shared(clubs)
    if t.chance(60):
        # the tables are there before the threads start
        for p in progs:
            if isinstance(p, Program):
                p.table = p.build(clubs)
    results = [[] for _ in progs]
    sched = Scheduler(t, st, out.log.append, t.pick([200, 2000, 20000]))
    threads = []
    for i, p in enumerate(progs):
        threads.append(Thread(sched, i, lambda p=p, i=i: p.run(clubs, results[i])))
    sched.run(threads)
    st.sim_time = 0.0
    st.probe("switches", sched.switches)
    for i, p in enumerate(progs):
        # alone, in a clubs that has never seen the other threads
        alone = []
        fresh = loader.fresh()
        err = None
        try:
            p.run(fresh, alone, True)
        except Exception as e:  # noqa
            err = e
        th = threads[i]
        if err is not None and th.error is None or th.error is not None and err is None or (
                err is not None and type(err) is not type(th.error)):
            raise Violation("C12", "failure", "thread %d: alone: %r, with the others: %r" % (
                i, err, th.error))
        out.judged += len(alone)
        if alone != results[i]:
            k = next((k for k, (a, b) in enumerate(zip(alone, results[i])) if a != b),
                     min(len(alone), len(results[i])))
            a = alone[k] if k < len(alone) else "nothing"
            b = results[i][k] if k < len(results[i]) else "nothing"
            raise Violation("C12", "interference", "thread %d, event %d: alone: %s; with the others: %s"
                            % (i, k, a, b))
        st.states.add((i, len(alone), sched.switches))
