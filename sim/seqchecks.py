"""C11 (sessions are functions of configuration, seed and calls), C14 (interrupted
looks) and C16 (full reset after interrupted calls)."""
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import time as _time

from . import genconf, loader, model, roomchecks
from .core import Malformed, Violation
from .room import Room
from .table import Table


# ------------------------------------------------------------------ aborting
class Aborter:
    """raises in front of the k-th clubs statement executed while armed"""

    def __init__(self):
        self.left = None
        self.exc = None
        self.fired = False

    def point(self):
        if self.left is None:
            return
        if self.left == 0:
            self.left = None
            self.fired = True
            raise self.exc("simulated interruption")
        self.left -= 1

    def call(self, k, exc, func):
        self.left, self.exc, self.fired = k, exc, False
        loader.set_yield(self.point)
        try:
            return func()
        except BaseException as e:  # noqa
            if not self.fired:
                raise
            if not isinstance(e, self.exc) and not loader.in_sut(e):
                raise
            return e
        finally:
            self.left = None
            loader.set_yield(None)


class TurnLimit(BaseException):
    """a time-out raised into a call, like an alarm signal"""


ABORTS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
          "TurnLimit": TurnLimit}


def abort_point(t):
    return t.draw(t.pick([12, 40, 120, 400, 1500]))


class LookRoom(Room):
    """a room whose spectators can be interrupted while looking"""

    def __init__(self, *a):
        self.aborter = Aborter()
        Room.__init__(self, *a)

    def execute(self, tb, op):
        if op[0] == "abort":
            from .table import Res
            what = {"text": tb.text, "render": tb.render, "winp": tb.winp}[op[1]]
            self.aborter.call(op[2], ABORTS[op[3]], what)
            if self.aborter.fired:
                self.stats.fault("%s interrupted by %s" % (op[1], op[3]))
            else:
                self.stats.probe("interruption came after the call")
            return Res()
        return Room.execute(self, tb, op)

    def spectate(self):
        t, k = self.t, self.knobs
        if not self.ended and self.tr.hands and k["abort"] and t.chance(k["abort"]):
            kinds = ["text", "render"]
            if self.tr.in_progress and self.winp_cost() <= 3000:
                kinds.append("winp")
            self.do(("abort", t.pick(kinds), abort_point(t), t.pick(sorted(ABORTS))))
        Room.spectate(self)


# ------------------------------------------------------------------------ C16
def run_c16(clubs, tape, out, prof):
    """play, abort calls, fully reset, compare with a new table"""
    t = tape
    label, cfg = genconf.gen(t, clubs, prof)
    rules = model.Rules(cfg)
    seed = t.draw(1 << 30)
    log = out.log.append
    st = out.stats
    log("config %s %s seed %d" % (label, cfg, seed))
    tb = Table(clubs, cfg, seed)
    ab = Aborter()
    stacked = None
    trouble = 0
    rounds = 1 + t.draw(3)
    for _ in range(rounds):
        if t.chance(20):
            stacked = t.shuffled(rules.deck)[: 1 + t.draw(len(rules.deck))]
            tb.trick(stacked)
            log("stack the deck with %s" % stacked)
        # some history
        n_calls = 1 + t.draw(14)
        obs = None
        for i in range(n_calls):
            kind = "reset" if obs is None or t.chance(8) else "step"
            rs = t.chance(50)
            rb = t.chance(20)
            bet = None
            if kind == "step" and obs is not None:
                call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
                bet = t.pick([call, lo, hi, -1, 0, hi + 1, call + 1])
            interrupted = t.chance(35)
            if kind == "reset":
                func = lambda: tb.reset(rb, rs)  # noqa
                what = "reset(button=%s, stacks=%s)" % (rb, rs)
            else:
                func = lambda: tb.step(bet)  # noqa
                what = "bet %r" % (bet,)
            st.op(kind)
            if interrupted:
                exc = t.pick(sorted(ABORTS))
                k = abort_point(t)
                try:
                    res = ab.call(k, ABORTS[exc], func)
                except Malformed as e:
                    if not trouble:
                        raise
                    log("%s on the damaged table: %s" % (what, e))
                    continue
                if ab.fired:
                    st.fault("%s interrupted by %s" % (kind, exc))
                    trouble += 1
                    log("%s interrupted by %s at statement %d" % (what, exc, k))
                    if isinstance(res, BaseException) or res.exc is not None:
                        # anything may happen on a half-changed table
                        if t.chance(40):
                            obs = None
                        continue
            else:
                try:
                    res = func()
                except Exception as e:  # noqa
                    if not trouble and loader.in_sut(e):
                        raise
                    log("%s on the damaged table raised %r" % (what, e))
                    continue
            if isinstance(res, BaseException):
                continue
            log("%s -> %s" % (what, res.brief()))
            if res.exc is not None and kind == "reset":
                obs = None
            elif res.obs is not None:
                obs = res.obs
        # full reset, against a new table with the same random state
        if stacked is not None and t.chance(50):
            tb.untrick()
            stacked = None
        random_state = tb._rng
        new = Table(clubs, cfg, 1)
        if stacked is not None:
            new.trick(stacked)
        new._rng = random_state
        hands = 1 + t.draw(3)
        log("full reset, then %d hands next to a new table" % hands)
        for h in range(hands):
            rb, rs = (True, True) if h == 0 else (t.chance(20), None)
            if rs is None:
                rs = sum(1 for s in new.stacks() if s > 0) < 2
            a, b = tb.reset(rb, rs), new.reset(rb, rs)
            st.op("reset")
            compare("reset(button=%s, stacks=%s)" % (rb, rs), tb, a, new, b, out)
            log("reset -> %s" % a.brief())
            if a.exc is not None:
                raise Violation("C16", "failure", "reset raised %r" % (a.exc,))
            obs = a.obs
            for _ in range(60):
                call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
                bet = t.pick([call, lo, hi, -1, call, call])
                a, b = tb.step(bet), new.step(bet)
                st.op("step")
                log("bet %r -> %s" % (bet, a.brief()))
                compare("bet %r" % (bet,), tb, a, new, b, out)
                if a.exc is not None:
                    break
                obs = a.obs
                if all(a.done):
                    break
            if a.exc is not None:
                break
        st.states.add((rules.n, trouble, hands, bool(stacked)))
    st.sim_time = 0.0


def compare(what, tb, a, new, b, out):
    out.judged += 1
    if a.key() != b.key():
        raise Violation("C16", "result", "%s: recovered table: %s; new table: %s" % (
            what, a.brief(), b.brief()))
    fa, fb = tb.fingerprint(), new.fingerprint()
    if fa != fb:
        raise Violation("C16", "state", "%s: recovered and new table differ: %s" % (
            what, {k: (fa[k], fb.get(k)) for k in fa if fa[k] != fb.get(k)}))


# ------------------------------------------------------------------------ C11
class Peer:
    """a second interpreter with another hash seed and environment, which re-runs
    recorded sessions"""

    def __init__(self):
        env = dict(os.environ)
        env.update({"PYTHONHASHSEED": "4242", "TZ": "Asia/Tokyo", "LC_ALL": "C",
                    "HOME": "/nonexistent", "PYTHONDONTWRITEBYTECODE": "1"})
        self.p = subprocess.Popen(
            [sys.executable, "-c",
             "import sys; sys.path.insert(0, %r)\n"
             "from sim import seqchecks; seqchecks.peer_main()" % os.path.dirname(
                 os.path.dirname(os.path.abspath(__file__)))],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")

    def ask(self, job):
        data = pickle.dumps(job, 2)
        self.p.stdin.write(len(data).to_bytes(8, "big") + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(8)
        if len(head) < 8:
            raise RuntimeError("peer interpreter died")
        return pickle.loads(self.p.stdout.read(int.from_bytes(head, "big")))


def peer_main():
    out = sys.stdout.buffer
    sys.stdout = sys.stderr
    clubs = loader.load()
    inp = sys.stdin.buffer
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        job = pickle.loads(inp.read(int.from_bytes(head, "big")))
        if job[0] == "resume":
            data = pickle.dumps(resume(clubs, *job[1:]), 2)
        else:
            data = pickle.dumps(rerun(clubs, *job), 2)
        out.write(len(data).to_bytes(8, "big") + data)
        out.flush()


def rerun(clubs, cfg, seed, ops, between=None, own=True):
    """history of a recorded session"""
    tb = Table(clubs, cfg, seed, own)
    return [(tb.deck(),)] + replay(tb, ops, between)


def replay(tb, ops, between=None):
    hist = []
    room = Room.__new__(Room)
    for op in ops:
        if between is not None:
            between()
        res = Room.execute(room, tb, op)
        hist.append((res.key(), tb.holes(), tb.board(), tb.deck(), tb.stacks()))
    return hist


class Recorder(roomchecks.Checker):
    prop = "C11"

    def start(self, room):
        self.hist = [(room.table.deck(),)]

    def after(self, room, op, res):
        tb = room.table
        self.hist.append((res.key(), tb.holes(), tb.board(), tb.deck(), tb.stacks()))


class Clock:
    """a clock which jumps; stands in for time.time/monotonic while re-running"""

    def __init__(self, t):
        self.now = 1e9 + t.draw(1 << 30)
        self.jump = t.pick([0.0, 1e-6, 3600.0, -86400.0])

    def __call__(self):
        self.now += self.jump
        return self.now


def run_c11(scn, clubs, tape, out, prof):
    t = tape
    if t.chance(prof.get("uniform", 12)):
        return run_uniform(clubs, t, out)
    rec = Recorder()
    room = None
    try:
        room = Room(clubs, t, rec, prof)
        room.run(250)
    finally:
        if room is not None:
            out.stats, out.log = room.stats, room.log
    cfg, seed, ops = room.cfg, room.seed, room.ops
    own = t.chance(50)
    if not own:
        # several tables from the very same configuration
        for _ in range(1 + t.draw(2)):
            Table(clubs, cfg, seed, False)
        out.stats.fault("re-run from a configuration other tables were made from")
    # other table in between, another clock
    other = Table(clubs, genconf.gen(t, clubs, prof)[1], t.draw(1000))
    mess = t.draw(3)

    def between():
        if mess == 1:
            random.random()
        elif mess == 2:
            with_other(other)
    clock = Clock(t)
    saved = {n: getattr(_time, n) for n in ("time", "monotonic", "perf_counter")}
    for n in saved:
        setattr(_time, n, clock)
    try:
        again = rerun(clubs, cfg, seed, ops, between, own)
    finally:
        for n, f in saved.items():
            setattr(_time, n, f)
    out.stats.fault("re-run next to another table, jumping clock")
    diff("re-run later in the same process", rec.hist, again, ops, out)
    if t.chance(prof.get("peer", 50)):
        if scn.peer is None:
            scn.peer = Peer()
        far = scn.peer.ask((cfg, seed, ops))
        out.stats.fault("re-run in another interpreter")
        diff("re-run in another interpreter", rec.hist, far, ops, out)
    if t.chance(30):
        fresh = rerun(loader.fresh(), cfg, seed, ops)
        out.stats.fault("re-run in a pristine copy of the modules")
        diff("re-run in a pristine copy of the modules", rec.hist, fresh, ops, out)


def with_other(tb):
    if tb.hands == 0 or sum(1 for s in tb.stacks() if s > 0) < 2:
        tb.reset(False, True)
    else:
        tb.step(tb.hands % 5)
        tb.reset(False, False)


def diff(what, a, b, ops, out, prop="C11"):
    out.judged += len(a)
    if a == b:
        return
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    raise Violation(prop, "history", "%s: call %s: first time %s, then %s" % (
        what, Room.op_text(ops[k - 1]) if k else "construction",
        a[k] if k < len(a) else None, b[k] if k < len(b) else None))


def run_uniform(clubs, t, out):
    """dealing statistics on consecutive hands of one seeded table"""
    size = t.pick([(1, 3), (2, 2), (1, 4), (2, 4), (1, 6), (4, 13)])
    suits, ranks = size
    players = 2
    cards = suits * ranks
    ncc = t.pick([0, 1]) if cards > 2 else 0
    cfg = dict(num_players=players, num_streets=1, blinds=0, antes=1, raise_sizes=1,
               num_raises=1, num_suits=suits, num_ranks=ranks, num_hole_cards=1,
               num_community_cards=[ncc], num_cards_for_hand=1,
               mandatory_num_hole_cards=0, start_stack=5, low_end_straight=True, order=None)
    seed = t.draw(1 << 30)
    how = t.pick(["table", "deck", "tricked deck"])
    n = 4000
    out.log.append("dealing statistics: %d deals of %d cards from one seeded %s (seed %d)" % (
        n, cards, how, seed))
    out.stats.fault("dealing statistics run")
    tb = Table(clubs, cfg, seed)
    orders = []
    fixed = 0
    if how == "tricked deck":
        fixed = 1
        tb.trick([tb.deck()[0]])
    with tb.rng():
        for _ in range(n):
            if how == "table":
                obs = tb.dealer.reset(reset_stacks=True)
                holes, board, deck = tb.holes(), tb.board(), tb.deck()
                orders.append(tuple(board + [c for h in holes for c in h] + deck))
            else:
                tb.dealer.deck.shuffle()
                orders.append(tuple(tb.deck()))
    m = cards - fixed
    names = sorted(set(orders[0][fixed:]))
    out.judged += n

    def chi(cells, observed, label):
        if cells < 2:
            return
        e = n / cells
        stat = sum((c - e) ** 2 / e for c in observed.values()) + (cells - len(observed)) * e
        dof = cells - 1
        # far beyond any plausible fluctuation
        limit = dof + 9 * (2 * dof) ** 0.5 + 60
        out.log.append("%s: chi2 %.1f, dof %d" % (label, stat, dof))
        if stat > limit:
            raise Violation("C11", "uniform", "%s (%s): chi2 %.1f with %d degrees of freedom over %d deals"
                            % (label, how, stat, dof, n))

    for pos in range(fixed, cards):
        cnt = {}
        for o in orders:
            cnt[o[pos]] = cnt.get(o[pos], 0) + 1
        chi(m, cnt, "card at position %d" % pos)
    if m <= 4:
        cnt = {}
        for o in orders:
            cnt[o[fixed:]] = cnt.get(o[fixed:], 0) + 1
        f = 1
        for i in range(2, m + 1):
            f *= i
        chi(f, cnt, "whole order")
        if m <= 3:
            cnt = {}
            for a, b in zip(orders, orders[1:]):
                cnt[a + b] = cnt.get(a + b, 0) + 1
            chi(f * f, cnt, "consecutive orders")
    cnt = {}
    for o in orders:
        k = (o[fixed], o[fixed + 1] if m > 1 else "")
        cnt[k] = cnt.get(k, 0) + 1
    if m > 1:
        chi(m * (m - 1), cnt, "first two cards")


# ------------------------------------------------------------------------ C22
class Crash(BaseException):
    """the process dies"""


class Save:
    """what survives a crash: the pickled table and the state of the random stream"""

    def __init__(self, tb, proto, at):
        try:
            self.data = pickle.dumps(tb.dealer, proto)
        except Exception as e:  # noqa
            raise Violation("C22", "save", "the table can not be saved: %r" % (e,))
        self.random, self.hands, self.cfg, self.at = tb._rng, tb.hands, tb.cfg, at

    def load(self, clubs):
        tb = Table.__new__(Table)
        tb.clubs, tb.cfg, tb._rng, tb.hands = clubs, self.cfg, self.random, self.hands
        try:
            tb.dealer = pickle.loads(self.data)
        except Exception as e:  # noqa
            raise Violation("C22", "restore", "the saved table can not be restored: %r" % (e,))
        return tb


def resume(clubs, data, rng, hands, cfg, ops):
    save = Save.__new__(Save)
    save.data, save.random, save.hands, save.cfg = data, rng, hands, cfg
    try:
        return replay(save.load(clubs), ops)
    except Violation as e:
        return [e.msg]


class SaveRoom(Room):
    """a room whose table is saved, copied, moved and lost in crashes"""

    crash = copies = keep = 0
    other = None

    def prepare(self):
        t = self.t
        self.aborter = Aborter()
        self.crash = t.pick([0, 10, 30])
        self.copies = t.pick([0, 6, 15])
        self.keep = t.pick([0, 3, 8])
        self.saves = []
        self.made = 0

    def save(self, at):
        return Save(self.table, self.t.between(2, pickle.HIGHEST_PROTOCOL), at)

    def execute(self, tb, op):
        t = self.t
        if self.keep and len(self.saves) < 4 and t.chance(self.keep):
            self.saves.append(self.save(len(self.ops) - 1))
            self.trace("save the table")
        if self.copies and self.made < 6 and t.chance(self.copies):
            self.copy(tb)
        if self.other is not None:
            self.disturb(self.other)
        if self.crash and t.chance(self.crash):
            save = self.save(len(self.ops) - 1)
            k = abort_point(t)
            res = self.aborter.call(k, Crash, lambda: Room.execute(self, tb, op))
            if not self.aborter.fired:
                self.stats.probe("crash came after the call")
                return res
            self.stats.fault("crash during %s, restored from the last save" % op[0])
            self.trace("crash at statement %d of: %s; restored" % (k, self.op_text(op)))
            tb.dealer = save.load(self.clubs).dealer
            tb._rng, tb.hands = save.random, save.hands
        return Room.execute(self, tb, op)

    def copy(self, tb):
        t = self.t
        self.made += 1
        how = t.pick(["deepcopy", "pickle"])
        if how == "pickle":
            other = self.save(0).load(self.clubs)
        else:
            other = Table.__new__(Table)
            other.__dict__.update(tb.__dict__)
            try:
                other.dealer = copy.deepcopy(tb.dealer)
            except Exception as e:  # noqa
                raise Violation("C22", "copy", "the table can not be copied: %r" % (e,))
        if t.chance(50):
            # the game goes on with the copy
            other.dealer, tb.dealer = tb.dealer, other.dealer
            self.stats.fault("game continued on a copy (%s)" % how)
            self.trace("continue with a copy (%s)" % how)
        else:
            self.stats.fault("copy made (%s)" % how)
            self.trace("copy the table (%s)" % how)
        self.other = other

    def disturb(self, other):
        """somebody plays on with the other copy"""
        t = self.t
        for _ in range(t.draw(3)):
            kind = t.draw(6)
            if other.hands == 0 or kind == 0:
                other.reset(t.chance(50), True)
            elif kind == 1:
                other.trick(t.shuffled(self.rules.deck)[: 1 + t.draw(6)])
            elif kind == 2:
                other.rebuy(t.draw(self.rules.n), t.draw(50))
            elif kind == 3:
                other.text()
            else:
                other.step(t.pick([0, -1, 1, 5, 10 ** 6]))


def run_c22(scn, clubs, tape, out, prof):
    t = tape
    rec = Recorder()
    room = None
    try:
        room = SaveRoom(clubs, t, rec, prof)
        room.prepare()
        room.run(250)
    finally:
        if room is not None:
            out.stats, out.log = room.stats, room.log
    cfg, seed, ops = room.cfg, room.seed, room.ops
    diff("played again without saves, copies and crashes", rerun(clubs, cfg, seed, ops),
         rec.hist, ops, out, "C22")
    for save in room.saves:
        rest = ops[save.at:]
        want = rec.hist[1 + save.at:]
        out.stats.fault("resumed from an old save")
        diff("resumed from the save before it", [()] + want, [()] + replay(save.load(clubs), rest),
             rest, out, "C22")
        if t.chance(prof.get("peer", 40)):
            if scn.peer is None:
                scn.peer = Peer()
            far = scn.peer.ask(("resume", save.data, save.random, save.hands, cfg, rest))
            out.stats.fault("resumed from an old save in another interpreter")
            diff("resumed from the save in another interpreter", [()] + want, [()] + far, rest, out, "C22")
    out.stats.states.add((room.rules.n, room.crash, room.copies, len(room.saves), room.made))
