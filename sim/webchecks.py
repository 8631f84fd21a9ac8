"""C17 (opening), C18 (delivery), C19 (closing) and C21 (independence of the game)
of the web view, in the simulated computer of sim/web.py."""
import errno
import http.client
import json
import random

from . import genconf, loader, model, web
from .core import Violation
from .table import Table, cards

WAITS = 2            # the viewer waits for its update channel and for its page
WAIT_S = 10.0
SLACK_S = 3.0


class Plan:
    """draws every delay and fault of one run"""

    def __init__(self, t, stats):
        self.t, self.stats = t, stats
        self.world = None
        self.on = True
        self.browsers = []
        self.inflight = []
        self.capacity = 1 << 20
        self.slow_start = 0          # percent
        self.p_fork = 0
        self.p_connect = 0
        self.p_reset_conn = 0
        self.http_mode = None        # (kinds, left)
        self.p_500 = 0
        self.p_http_slow = 0
        self.crash = None            # None, ("time", max) or ("ops", max)
        self.stalls = None           # (count, max length)
        self.stall_total = 0.0
        self.int_left = None
        self.int_fired = None
        self.preempt_mean = 0
        self._pre = 0
        self.ports = None
        self.lat = 0.0002
        self.blat = 0.01
        self.stolen = None
        self.own_left = None         # refused connections until one leads to itself
        self.p_stdout = 0
        self.printing_failed = False
        self.clock = None

    def calm(self):
        self.on = False
        self.int_left = None

    # -- processes
    def fork_fails(self):
        if self.on and self.p_fork and self.t.chance(self.p_fork):
            self.stats.fault("fork fails")
            return True
        return False

    def start_delay(self):
        if self.on and self.slow_start and self.t.chance(self.slow_start):
            self.stats.fault("slow process start")
            return self.t.draw(160) / 10.0
        return self.t.draw(20) / 1000.0

    def import_delay(self):
        if self.on and self.slow_start and self.t.chance(self.slow_start):
            self.stats.fault("slow imports")
            return self.t.draw(140) / 10.0
        return 0.05 + self.t.draw(10) / 20.0

    def new_process(self, p):
        if not self.on:
            return
        w, t = self.world, self.t
        p.broken_page = bool(self.p_500 and t.chance(30))
        if self.crash is not None:
            kind, top = self.crash
            if kind == "ops":
                p.crash_ops = 1 + t.draw(top)
            else:
                when = w.now + t.draw(int(top * 100)) / 100.0

                def kill():
                    if not p.dead and self.on:
                        self.stats.fault("server killed")
                        p.injected_death = True
                        w.die(p, -9)
                w.at(when, kill)
        if self.stalls is not None:
            count, top = self.stalls
            when = w.now
            for _ in range(count):
                when += t.draw(60) / 10.0
                length = (1 + t.draw(int(top * 10))) / 10.0
                w.at(when, lambda length=length: self.stall(p, length))

    def stall(self, p, length):
        if p.dead or not self.on:
            return
        self.stats.fault("server stalled")
        self.world.log("server %d stalls for %.1f s" % (p.pid, length))
        p.stalled_until = max(p.stalled_until, self.world.now + length)
        self.stall_total += length

    def signal_delay(self):
        return self.t.draw(3) / 1000.0

    def late_sends(self):
        return self.t.draw(2)

    # -- scheduling
    def preempt(self):
        if not self.preempt_mean or not self.on:
            return False
        if self._pre <= 0:
            self._pre = 1 + self.t.draw(2 * self.preempt_mean)
            self.stats.fault("process preempted in a system call")
            return True
        self._pre -= 1
        return False

    def slice(self):
        return self.t.pick([0.001, 0.01, 0.1, 1.0])

    def interrupt(self, what):
        if self.int_left is None:
            return
        if self.int_left <= 0:
            self.int_left = None
            self.int_fired = what
            self.stats.fault("interrupted in %s" % what)
            self.world.log("KeyboardInterrupt in %s" % what)
            raise KeyboardInterrupt()
        self.int_left -= 1

    # -- network
    def latency(self):
        return self.lat * self.t.draw(3)

    def browser_latency(self, b):
        return (self.blat + b.slow) * self.t.draw(4) / 2.0

    def notice_delay(self):
        return self.t.pick([0.0, 0.1, 2.0, 60.0])

    def free_port(self):
        if self.ports:
            return self.ports[self.t.draw(len(self.ports))]
        w = self.world
        for _ in range(100):
            p = 40000 + self.t.draw(1000)
            if p not in w.ports and p + 1 not in w.ports:
                return p
        return 41234

    def connect_fault(self):
        if self.on and self.p_connect and self.t.chance(self.p_connect):
            self.stats.fault("connection attempt fails")
            return self.t.pick([
                ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"),
                ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"),
                TimeoutError(errno.ETIMEDOUT, "Connection timed out"),
                OSError(errno.EADDRNOTAVAIL, "Cannot assign requested address"),
            ])
        return None

    def own_connection(self, port):
        if self.own_left is None or not 32768 <= port <= 60999:
            return False
        self.own_left -= 1
        if self.own_left < 0:
            self.own_left = None
            return True
        return False

    def output_fault(self):
        if self.on and self.p_stdout and self.t.chance(self.p_stdout):
            self.stats.fault("printing fails")
            self.printing_failed = True
            return self.t.pick([BrokenPipeError(errno.EPIPE, "Broken pipe"),
                                OSError(errno.ENOSPC, "No space left on device")])
        return None

    def connected(self, mine, theirs):
        if self.on and self.p_reset_conn and self.t.chance(self.p_reset_conn):
            when = self.t.draw(40) / 20.0

            def cut():
                if self.on and not mine.closed and not theirs.closed:
                    self.stats.fault("update connection reset")
                    self.world.log("update connection reset")
                    self.world.reset(mine)
            self.world.after(when, cut)

    def http_fault(self):
        if not self.on or self.http_mode is None:
            return None
        kinds, left = self.http_mode
        if left <= 0:
            return None
        self.http_mode = (kinds, left - 1)
        k = kinds[self.t.draw(len(kinds))]
        if k:
            self.stats.fault("page request: " + k)
        return k

    def http_delay(self):
        if self.on and self.p_http_slow and self.t.chance(self.p_http_slow):
            self.stats.fault("page request delayed")
            return self.t.draw(150) / 10.0
        return 0.0

    def request_time(self):
        return self.t.draw(4) / 1000.0

    def http_500(self, proc):
        if proc.broken_page:
            return True
        return bool(self.on and self.p_500 and self.t.chance(self.p_500))


HTTP_KINDS = [
    ["reset", None], ["disconnected", None], ["garbage", None], ["unreachable", None],
    ["lost"], ["reset", "disconnected", "garbage", "unreachable", None],
    ["lost", "reset", None],
]


def fault_plan(t, stats, mild=False):
    """a plan with a drawn subset of the fault kinds"""
    p = Plan(t, stats)
    p.lat = t.pick([0.0002, 0.002, 0.02])
    if t.chance(40):
        p.preempt_mean = t.pick([60, 15, 4])
    if mild:
        return p
    if t.chance(40):
        p.slow_start = t.pick([30, 70])
    if t.chance(25):
        p.p_connect = t.pick([20, 60, 97])
    if t.chance(20):
        p.p_reset_conn = 80
    if t.chance(45):
        p.http_mode = (t.pick(HTTP_KINDS), t.pick([1, 3, 10, 100000]))
    if t.chance(20):
        p.p_500 = t.pick([30, 80, 100])
    if t.chance(20):
        p.p_http_slow = t.pick([50, 100])
    if t.chance(35):
        p.crash = t.pick([("time", 3.0), ("time", 20.0), ("ops", 12), ("ops", 60),
                          ("ops", 3000)])
    if t.chance(30):
        p.stalls = (1 + t.draw(3), t.pick([0.5, 4.0, 12.0, 40.0]))
    if t.chance(12):
        p.p_fork = 100
    if t.chance(15):
        p.int_left = t.draw(t.pick([8, 60, 900]))
    if t.chance(25):
        p.clock = (t.draw(120) / 10.0, t.pick([-3600.0, -20.0, 5.0, 3600.0]))
    return p


def jump_clock(w, plan):
    if plan.clock is None:
        return
    when, by = plan.clock

    def jump():
        if plan.on:
            plan.stats.fault("wall clock jumps")
            w.log("wall clock jumps by %g s" % by)
            w.offset += by
    w.at(when, jump)


def aliens(t, w, plan, chance):
    """other programs on ports the viewer may choose"""
    base = 40000 + 10 * t.draw(50)
    if t.chance(chance):
        n = 1 + t.draw(2)
        for _ in range(n):
            port = base + t.draw(4)
            if port in w.ports:
                continue
            kind = t.pick(["http", "silent", "closer"])
            a = web.Alien(kind, port)
            w.ports[port] = (None, "0.0.0.0", a)
            w.stats.fault("port in use by another program (%s)" % kind)
            w.log("another program (%s) listens on port %d" % (kind, port))
        plan.ports = [p for p in range(base, base + 5) if p not in w.ports]
    return base


def remove_aliens(w):
    for k, v in list(w.ports.items()):
        if v[0] is None:
            del w.ports[k]
    w.plan.ports = None


SUITS = "\u2660\u2665\u2666\u2663"


class Feed:
    """synthetic table states for driving a viewer directly"""

    def __init__(self, t, clubs, n, holes, board):
        self.t, self.clubs = t, clubs
        self.n, self.holes, self.board = n, holes, board
        self.scale = 1
        self.k = 0
        L = model.SUIT_LETTER
        self.deck = [r + s for r in "23456789TJQKA" for s in SUITS]
        self.letter = L

    def card(self, name):
        return self.clubs.Card(name[0] + self.letter[name[1]])

    def next(self):
        t = self.t
        self.k += 1
        n = self.n
        names = [self.deck[(t.draw(52) + 7 * i) % 52] for i in range(n * self.holes + self.board)]
        shown = t.draw(self.board + 1)
        hole = [[names[i * self.holes + j] for j in range(self.holes)] for i in range(n)]
        board = names[n * self.holes:][:shown]
        active = [not t.chance(30) for _ in range(n)]
        cfg = {
            "action": t.draw(n + 1) - 1, "active": active,
            "all_in": [a and t.chance(20) for a in active],
            "button": t.draw(n), "done": t.chance(20),
            "pot": self.k, "payouts": [self.scale * t.draw(9) for _ in range(n)],
            "prev_action": None if t.chance(20) else (t.draw(n), t.draw(50), t.chance(30)),
            "street_commits": [t.draw(30) for _ in range(n)],
            "stacks": [self.scale * t.draw(1000) + t.draw(10) for _ in range(n)],
        }
        want = json.loads(json.dumps(cfg))
        want["hole_cards"] = hole
        want["community_cards"] = board
        cfg["hole_cards"] = [[self.card(c) for c in h] for h in hole]
        cfg["community_cards"] = [self.card(c) for c in board]
        return cfg, want


def open_viewer(w, clubs, spec, kw):
    w.context = "opening the web view"
    return clubs.render.GraphicViewer(*spec, **kw)


def server_of(w, first=0):
    """the server processes started since"""
    return [p for p in w.procs[1 + first:]]


def check_clean(w, prop, procs, what):
    """no server process and no port left"""
    for p in procs:
        if not p.dead:
            raise Violation(prop, "process left", "%s: server process %d still runs" % (
                what, p.pid))
        held = sorted(k for k, v in w.ports.items() if v[0] is p or (
            v[0] is w.main and isinstance(v[2], web.SimConn) and not v[2].closed))
        if held:
            raise Violation(prop, "port left", "%s: ports %s still in use" % (what, held))


def check_works(w, prop, out, host, port, show, what, ident=0):
    """the page is served and an update reaches a browser"""
    w.context = "checking the opened web view"
    out.judged += 1
    try:
        r = w.urlopen("http://%s:%d/" % (host, port), 10.0)
        body = r.read()
    except Exception as e:  # noqa
        raise Violation(prop, "not serving", "%s, but its page request fails: %s: %s" % (
            what, type(e).__name__, e))
    if b"<svg" not in body or b"parse_config.js" not in body:
        raise Violation(prop, "not serving", "%s, but its page is not the table page: %s" % (
            what, body[:80]))
    b = web.Browser(w, ident, port)
    w.plan.browsers.append(b)
    if not b.connect():
        raise Violation(prop, "not serving", "%s, but no server accepts browsers" % what)
    w.wait(lambda: b.connected, 5.0, "browser")
    if not b.connected:
        raise Violation(prop, "not serving", "%s, but a browser can not connect" % what)
    want = show()
    seen = b.sessions[-1]["states"]
    w.wait(lambda: want in seen, 5.0, "browser")
    if want not in seen:
        raise Violation(prop, "updates lost", "%s, but an update does not reach the browser "
                        "within 5 s; it received %s" % (what, seen[-2:]))
    b.drop("check done")


def draw_kw(t):
    kw = {}
    host = t.weighted([(60, "127.0.0.1"), (10, "localhost"), (10, "0.0.0.0"), (10, "192.168.7.5")])
    if host != "127.0.0.1" or t.chance(20):
        kw["host"] = host
    return host, kw


class Game:
    """a dealer played by simple moves; optionally with the web view"""

    def __init__(self, t, clubs, prof):
        self.label, self.cfg = genconf.gen(t, clubs, prof)
        self.seed = t.draw(1 << 30)
        self.clubs = clubs
        self.tb = Table(clubs, self.cfg, self.seed)
        self.obs = None
        self.done = None

    def advance(self, m):
        """one call; returns a comparable result"""
        tb = self.tb
        if self.obs is None or (self.done is not None and all(self.done)):
            rs = sum(1 for s in tb.stacks() if s > 0) < 2
            res = tb.reset(False, rs)
            self.obs, self.done = res.obs, None
            return ("reset", res)
        o = self.obs
        bet = [o["call"], o["call"], o["min_raise"], -1, o["max_raise"], 0, o["call"],
               o["stacks"][o["action"]]][m % 8]
        res = tb.step(bet)
        self.obs, self.done = res.obs, res.done
        return ("step %s" % bet, res)

    def expected(self):
        """the table state as the public attributes tell it"""
        d = self.tb.dealer
        return {
            "action": self.obs["action"] if not (self.done and all(self.done)) else -1,
            "active": self.tb.active(), "button": self.obs["button"],
            "community_cards": self.tb.board(), "hole_cards": self.tb.holes(),
            "pot": self.tb.pot(), "stacks": self.tb.stacks(),
            "street_commits": list(d.street_commits),
            "done": bool(self.done and all(self.done)),
        }


def sub(state, want):
    return isinstance(state, dict) and all(
        k in state and state[k] == v for k, v in want.items())


# ---------------------------------------------------------------------- C17
def run_c17(scn, clubs, tape, out):
    t, st = tape, out.stats
    plan = fault_plan(t, st)
    if t.chance(12):
        plan.own_left = t.draw(40)
    if t.chance(8):
        plan.p_stdout = 100
    via_dealer = t.chance(50)
    host, kw = draw_kw(t)
    game = None
    spec = None
    if via_dealer:
        game = Game(t, clubs, {"max_players": 6, "max_combos": 60})
        out.log.append("table %s" % game.label)
    else:
        spec = (t.between(2, 9), t.between(1, 4), t.between(0, 5))
        out.log.append("viewer for %d players, %d hole cards, %d community cards" % spec)

    def body(w):
        jump_clock(w, plan)
        base = aliens(t, w, plan, 35)
        r = t.draw(10)
        if r < 3:
            kw["port"] = base + t.draw(4)
        elif r == 3:
            kw["port"] = 65535
            st.fault("port without a successor")
        elif r == 4:
            plan.ports = [65535]
        if t.chance(10):
            # another program takes the chosen port first
            stolen = kw.get("port")
            if stolen and stolen not in w.ports:
                def steal(which=stolen + t.draw(2)):
                    if plan.on and which not in w.ports:
                        w.log("another program takes port %d" % which)
                        st.fault("port taken during start")
                        w.ports[which] = (None, "0.0.0.0", web.Alien("silent", which))
                w.after(t.draw(20) / 20.0, steal)
        before = None
        if game is not None:
            for _ in range(1 + t.draw(4)):
                game.advance(t.draw(8))
            before = game.tb.fingerprint()
        state = attempt(w, kw, before, "first", game)
        # later attempts on a calm computer
        plan.calm()
        remove_aliens(w)
        plan.own_left = t.draw(30) if t.chance(25) else None
        kw2 = {k: v for k, v in kw.items() if k != "port" or v < 65535}
        game2 = game
        if state == "open":
            kw2.pop("port", None)  # the first one still uses it
            if game is not None:
                game2 = Game(t, clubs, {"max_players": 6, "max_combos": 60})
                game2.advance(0)
                before = game2.tb.fingerprint()
        attempt(w, kw2, before, "later", game2)
        # those still open do not disturb each other
        if len(opened) > 1:
            st.probe("two web views open")
            for i, (mine, port, host, show) in enumerate(opened):
                if all(p.dead for p in mine):
                    continue
                check_works(w, "C17", out, host, port, show,
                            "web view %d of two was open" % (i + 1), ident=20 + i)

    opened = []

    def attempt(w, kw, before, which, game):
        procs0 = len(w.procs)
        stall0 = plan.stall_total
        t0 = w.now
        viewer = None
        err = None
        opened0 = len(w.viewers)
        w.context = "opening the web view"
        out.judged += 1
        if game is not None and game.tb.dealer.viewer is not None:
            return
        try:
            if game is not None:
                game.tb.dealer.render("human", **kw)
                viewer = game.tb.dealer.viewer
            else:
                viewer = open_viewer(w, clubs, spec, kw)
        except (Exception, KeyboardInterrupt) as e:
            err = e
            if game is not None and game.tb.dealer.viewer is not None:
                # it was opened; sending the first state failed
                viewer = game.tb.dealer.viewer
                w.log("first state not sent: %s" % type(e).__name__)
                lost = any(p.dead for p in w.procs[procs0:]) or any(
                    c.broken for c in w.main.conns)
                if not lost and plan.int_fired is None:
                    raise Violation("C17", "not serving", "the web view was opened, but sending the "
                                    "first state raised %s: %s" % (type(e).__name__, e))
                viewer.close()
                check_clean(w, "C17", w.procs[procs0:], "after closing")
                game.tb.dealer.viewer = None
                plan.int_left = None
                return "closed"
        took = w.now - t0
        procs = w.procs[procs0:]
        w.log("%s opening %s after %.1f s" % (
            which, "returned" if err is None else "raised %s: %s" % (
                type(err).__name__, str(err)[:100]), took))
        st.probe("opening returned" if err is None else "opening raised")
        st.states.add((which, type(err).__name__, int(took), len(procs),
                       tuple(sorted(st.faults))))
        limit = WAITS * WAIT_S + SLACK_S + plan.stall_total - stall0
        if took > limit:
            raise Violation("C17", "not in bounded time", "opening took %.1f s (limit %.1f s)" % (
                took, limit))
        if err is None:
            for p in procs:
                if p.dead and (p.http_ok is None or p.died_at < p.http_ok):
                    raise Violation("C17", "dead server", "opening returned although the server "
                                    "had ended at %.2f s" % p.died_at)
            plan.calm()
            if any(p.dead or p.stalled_until > w.now for p in procs):
                st.probe("server died or stalled right after opening")
                limit = max([p.stalled_until for p in procs if not p.dead] + [0]) - w.now
                if all(p.dead for p in procs):
                    return
                if limit > 0:
                    w.sleep(limit + 0.5)
            port = kw.get("port") or viewer.port
            broken = [c for c in w.main.conns if c.broken and c.peer is not None]
            if broken:
                st.probe("connection reset right after opening")
                viewer.close()
                if game is not None:
                    game.tb.dealer.viewer = None
                return "closed"
            feed = None
            if game is None:
                feed = Feed(t, clubs, *spec)

            def show():
                if game is not None:
                    want = json.loads(json.dumps(game.expected()))
                    game.tb.dealer.render("human")
                    return Sub(want)
                cfg, want = feed.next()
                viewer.render(cfg)
                return want
            check_works(w, "C17", out, kw.get("host", "127.0.0.1"), port, show,
                        "opening (%s) returned" % which)
            if which == "first" and t.chance(50):
                w.context = "closing the web view"
                viewer.close()
                if game is not None:
                    game.tb.dealer.viewer = None
                return "closed"
            opened.append((procs, port, kw.get("host", "127.0.0.1"), show))
            return "open"
        else:
            ok = isinstance(err, clubs.error.RenderInitializationError)
            if isinstance(err, KeyboardInterrupt) and plan.int_fired is not None:
                ok = True
            if plan.p_fork and isinstance(err, OSError):
                ok = True  # the system could not start a process at all
            if plan.printing_failed and isinstance(err, OSError):
                ok = True
                plan.printing_failed = False
            if not ok:
                raise Violation("C17", "wrong error", "opening raised %s: %s instead of the render "
                                "initialization error" % (type(err).__name__, err))
            if which == "later" and w.own_clash:
                # the server bound its port at the very moment a connection led to itself
                st.probe("connection to itself met the server")
            elif which == "later":
                raise Violation("C17", "not usable again", "a later attempt without any fault "
                                "raised %s: %s" % (type(err).__name__, err))
            plan.int_left = None
            if isinstance(err, KeyboardInterrupt):
                # interrupted while waiting for the end of a server already told to stop
                plan.calm()
                w.wait(lambda: all(p.dead for p in procs), 1.0 + max(
                    [p.stalled_until - w.now for p in procs] + [0.0]), "grace")
            check_clean(w, "C17", procs, "after a failed opening (%s)" % type(err).__name__)
            for v in w.viewers[opened0:]:
                w.context = "discarding a viewer whose opening failed"
                try:
                    web.discard(v)
                except Exception as e:  # noqa
                    raise Violation("C17", "discard raises", "discarding a viewer whose opening "
                                    "failed raised %s: %s" % (type(e).__name__, e))
            if game is not None:
                after = game.tb.fingerprint()
                if after != before:
                    raise Violation("C17", "table changed", "a failed opening changed the table: "
                                    "%s -> %s" % (before, after))

    web.run_world(plan, t, st, out.log, body, "C17")


class Sub(dict):
    """equals every state which contains it"""

    def __eq__(self, other):
        return sub(other, dict(self))

    def __ne__(self, other):
        return not self == other

    __hash__ = None


def sent_to(w):
    """how much the game process has given to the network, and processes it has started"""
    return [(c.tx.total_put, c.late_sends) for c in w.main.conns] + [len(w.procs)]


# ---------------------------------------------------------------------- C19
def run_c19(scn, clubs, tape, out):
    t, st = tape, out.stats
    plan = fault_plan(t, st, mild=True)
    plan.capacity = t.pick([1 << 20, 3000, 600])
    host, kw = draw_kw(t)
    spec = (t.between(2, 6), t.between(1, 2), t.between(0, 5))

    def body(w):
        other = None
        other_feed = None
        if t.chance(25):
            other = open_viewer(w, clubs, spec, {})
            other_feed = Feed(t, clubs, *spec)
        n0 = len(w.procs)
        game = None
        if t.chance(30):
            game = Game(t, clubs, {"max_players": 4, "max_combos": 60})
            game.advance(0)
            w.context = "opening the web view"
            game.tb.dealer.render("human", **kw)
            viewer = game.tb.dealer.viewer
            feed = None
        else:
            viewer = open_viewer(w, clubs, spec, kw)
            feed = Feed(t, clubs, *spec)
        port = viewer.port
        procs = w.procs[n0:]
        b = web.Browser(w, 1, port)
        plan.browsers.append(b)
        if t.chance(50):
            b.connect()
        server = procs[0]
        conn = next((c for c in reversed(w.main.conns) if c.peer is not None
                     and isinstance(c.service, web.SimListener)
                     and c.peer.proc is server), None)
        # the state of the server at the moment of closing
        trouble = t.weighted([
            (20, "none"), (15, "dead"), (15, "stalled"), (15, "reset"), (15, "peer closed"),
            (10, "dies during close"), (10, "stalled, buffer full"), (8, "update port closed"),
            (8, "stream closed and stalled")])
        w.log("trouble: " + trouble)
        if trouble != "none":
            st.fault("at close: " + trouble)
        if t.chance(60):
            w.sleep(t.draw(20) / 10.0)
        if trouble == "stalled":
            plan.stall(server, (1 + t.draw(80)) / 10.0)
        if trouble == "stalled, buffer full":
            plan.stall(server, 3 + t.draw(80) / 10.0)
        renders = t.draw(12)
        if trouble == "stalled, buffer full":
            # fill the buffer up to the point where the next send would block
            while conn is not None and conn.tx.cap - conn.tx.size > 2500:
                if not push(w, viewer, feed, game):
                    break
                if conn.tx.cap > 100000:
                    conn.tx.cap = 5000
            if conn is not None:
                conn.tx.cap = conn.tx.size  # nothing fits any more
        else:
            for _ in range(renders):
                if conn is not None and conn.tx.cap - conn.tx.size < 2500 and (
                        server.stalled_until > w.now):
                    break
                push(w, viewer, feed, game)
        if trouble == "dead":
            server.injected_death = True
            w.die(server, -9)
            if t.chance(50):
                w.sleep(0.1)
        elif trouble == "reset" and conn is not None:
            w.reset(conn)
        elif trouble == "peer closed" and conn is not None and conn.peer is not None:
            conn.peer.closed = True
        elif trouble == "update port closed":
            for k, v in list(w.ports.items()):
                if v[0] is server and isinstance(v[2], web.SimListener):
                    w.unbind(v[2])
            if conn is not None and conn.peer is not None:
                conn.peer.closed = True
        elif trouble == "stream closed and stalled":
            if conn is not None and conn.peer is not None:
                conn.peer.closed = True
            plan.stall(server, (1 + t.draw(60)) / 10.0)
        elif trouble == "dies during close":
            w.after(t.draw(6) / 2000.0, lambda: server.dead or w.die(server, -9))
            plan.preempt_mean = 2
        how = t.pick(["close", "discard", "close twice", "close, discard"])
        steps = {"close": ["close"], "discard": ["discard"], "close twice": ["close", "close"],
                 "close, discard": ["close", "discard"]}[how]
        stall0 = max(0.0, server.stalled_until - w.now)
        t0 = w.now
        really = t.chance(40)
        for i, s in enumerate(steps):
            w.context = "closing the web view (%s)" % how
            out.judged += 1
            try:
                if s == "close":
                    viewer.close()
                else:
                    if game is not None:
                        game.tb.dealer.viewer = None
                    holder = [viewer]
                    viewer = None
                    if not really:
                        web.discard(holder.pop())
                    elif not web.collect(holder):
                        w.log("somebody still refers to the discarded web view")
            except Exception as e:  # noqa
                raise Violation("C19", "close raises", "%s (call %d of %s, server %s) raised %s: %s"
                                % (s, i + 1, how, trouble, type(e).__name__, e))
            w.log("%s returned" % s)
            check_clean(w, "C19", procs, "after %s (server %s)" % (s, trouble))
        took = w.now - t0
        limit = 5.0 + stall0 + 1.2 * 30
        if took > limit:
            raise Violation("C19", "not in bounded time", "closing took %.1f s (server %s)" % (
                took, trouble))
        st.states.add((trouble, how, renders, game is not None, int(took * 10)))
        plan.calm()
        if other is not None:
            def show():
                cfg, want = other_feed.next()
                other.render(cfg)
                return want
            check_works(w, "C19", out, "127.0.0.1", other.port, show,
                        "another web view was closed", ident=9)
            w.context = "closing another web view"
            other.close()
            check_clean(w, "C19", w.procs[1:], "after closing all")
        # the ports can be used again at once
        if t.chance(30):
            kw2 = dict(kw, port=port)
            again = open_viewer(w, clubs, spec, kw2)
            again.close()
            check_clean(w, "C19", w.procs[1:], "after closing a web view on the same port")

    def push(w, viewer, feed, game):
        w.context = "rendering"
        try:
            if game is not None:
                game.advance(t.draw(8))
                game.tb.dealer.render("human")
            else:
                viewer.render(feed.next()[0])
        except Exception as e:  # noqa
            w.log("render raised %s" % type(e).__name__)
            return False
        return True

    web.run_world(plan, t, st, out.log, body, "C19")


# ---------------------------------------------------------------------- C18
class Delivery:
    """checks what each browser session received against what was rendered"""

    def __init__(self, out):
        self.out = out
        self.rendered = []      # expected states, in order
        self.ends = []          # where each ends in the update stream
        self.pipe = None

    def add(self, want, now):
        self.rendered.append(want)

    def current(self):
        """the last state the server has read completely"""
        got = self.pipe.total_taken
        n = 0
        while n < len(self.ends) and self.ends[n] <= got:
            n += 1
        return n - 1

    def taking(self):
        """whether the server has read some or all of a state still being rendered"""
        done = self.ends[-1] if self.ends else 0
        return len(self.rendered) > len(self.ends) and self.pipe.total_taken > done

    def candidates(self, state):
        return {i for i, r in enumerate(self.rendered) if r == state}

    def check(self, b, info):
        """after every received state"""
        states = info["states"]
        x = states[-1]
        self.out.judged += 1
        if x == {} or x is None:
            if len(states) > 1:
                if info.get("set") is not None:
                    raise Violation("C18", "went back", "browser %d received an empty state after "
                                    "state %s" % (b.ident, sorted(info["set"])))
                return
            low = info.get("low", -1)
            if low >= 0:
                raise Violation("C18", "joiner not current", "browser %d joined when state %d was "
                                "current and received an empty state" % (b.ident, low))
            info["empty"] = True
            return
        cand = self.candidates(x)
        if not cand:
            raise Violation("C18", "altered", "browser %d received a state nobody rendered: %s; "
                            "last rendered: %s" % (b.ident, x, self.rendered[-1:]))
        prev = info.get("set")
        if prev is None:
            low = info.get("low", -1)
            # an empty first state means nothing had been received when it joined:
            # then the first state must be the one after
            ok = {i for i in cand if i >= low}
            if info.get("empty"):
                ok = {i for i in cand if i in (low, low + 1) and i >= 0}
            if not ok:
                raise Violation("C18", "joiner not current" if max(cand) < low else "skipped",
                                "browser %d joined when state %d was current and first "
                                "received state %s" % (b.ident, low, sorted(cand)))
            # nothing the server read after it joined may come first
            if not info.get("empty"):
                near = {i for i in ok if i == low or i == low + 1 and info.get("taking")}
                if not near:
                    raise Violation("C18", "skipped", "browser %d joined when state %d was "
                                    "current and first received state %s" % (
                                        b.ident, low, sorted(ok)))
                ok = near
            info["set"] = ok
            return
        ok = {i for i in cand if i in prev or i - 1 in prev}
        if not ok:
            lo, hi = min(prev), max(prev)
            cls = "went back" if max(cand) < lo else "skipped"
            raise Violation("C18", cls, "browser %d had state %s and then received state %s" % (
                b.ident, sorted(prev), sorted(cand)))
        info["set"] = ok


class View:
    """one web view with what was rendered to it"""

    def __init__(self, w, clubs, t, out, spec, kw, game=None):
        self.w, self.t, self.game = w, t, game
        self.dl = Delivery(out)
        if game is not None:
            game.advance(0)
            w.context = "opening the web view"
            self.dl.add(Sub(json.loads(json.dumps(game.expected()))), w.now)
            game.tb.dealer.render("human", **kw)
            self.viewer = game.tb.dealer.viewer
        else:
            self.viewer = open_viewer(w, clubs, spec, kw)
            self.feed = Feed(t, clubs, *spec)
            self.feed.scale = 10 ** t.weighted([(80, 0), (10, 6), (10, 27)])
        self.port = self.viewer.port
        self.server = w.procs[-1]
        self.conn = next(c for c in reversed(w.main.conns) if c.peer is not None
                         and c.peer.proc is self.server
                         and isinstance(c.service, web.SimListener))
        self.dl.pipe = self.conn.tx
        if game is not None:
            self.dl.ends.append(self.conn.tx.total_put)
        self.browsers = []

    def push(self):
        self.w.context = "rendering"
        if self.game is not None:
            self.game.advance(self.t.draw(8))
            self.dl.add(Sub(json.loads(json.dumps(self.game.expected()))), self.w.now)
            self.game.tb.dealer.render("human")
        else:
            cfg, want = self.feed.next()
            self.dl.add(want, self.w.now)
            self.viewer.render(cfg)
        self.dl.ends.append(self.conn.tx.total_put)


def run_c18(scn, clubs, tape, out):
    t, st = tape, out.stats
    plan = fault_plan(t, st, mild=True)
    plan.capacity = t.pick([1 << 20, 6000, 1500, 400])
    plan.blat = t.pick([0.01, 0.1, 1.0])
    if t.chance(40):
        plan.stalls = (1 + t.draw(3), t.pick([0.5, 4.0]))
    host, kw = draw_kw(t)
    via_dealer = t.chance(35)
    game = None
    if via_dealer:
        game = Game(t, clubs, {"max_players": 6, "max_combos": 60})
        out.log.append("table %s" % game.label)
        spec = None
    else:
        spec = (t.between(2, 9), t.between(1, 5), t.between(0, 5))
        if t.chance(10):
            spec = (10, 5, t.draw(3))
    nstates = 3 + t.draw(t.pick([5, 15, 40]))
    nbrowsers = 1 + t.draw(4)
    second = t.weighted([(70, ""), (15, "before"), (15, "after")])
    spec2 = (t.between(2, 9), t.between(1, 5), t.between(0, 5)) if second else None

    def body(w):
        views = {}

        def view(*args):
            v = View(w, clubs, t, out, *args)
            views[v.port] = v
            return v

        w.on_state = lambda b, info: views[b.port].dl.check(b, info)

        def hook(what, srv, req):
            # a browser joins: the last state the server has read is current
            dl = views[req.link.browser.port].dl
            req.info["low"], req.info["taking"] = dl.current(), dl.taking()
        w.op_hook = hook
        if second == "before":
            side = view(spec2, {})
        main = view(spec, kw, game)
        if second == "after":
            side = view(spec2, {})
        if second:
            st.fault("second web view")
        else:
            side = None
        stop = {"flag": False}

        def browser(ident, v):
            b = web.Browser(w, ident, v.port)
            v.browsers.append(b)
            b.slow = t.pick([0.0, 0.0, 0.5, 2.0])
            plan.browsers.append(b)

            def live():
                w.sleep(t.draw(30) / 10.0)
                while not stop["flag"]:
                    if b.link is None:
                        if b.connect():
                            st.probe("browser connects")
                    w.sleep(0.05 + t.draw(60) / 20.0)
                    if b.link is not None and t.chance(25) and not stop["flag"]:
                        st.fault("browser connection dropped")
                        b.drop("network")
                        if t.chance(50):
                            w.sleep(t.draw(20) / 10.0)
                if b.link is None:
                    b.connect()
            return b, live

        for i in range(nbrowsers):
            b, live = browser(i, main)
            w.spawn(live, w.outside, "browser")
        if second:
            for i in range(1 + t.draw(2)):
                b, live = browser(10 + i, side)
                w.spawn(live, w.outside, "browser")
        burst = 0
        for k in range(nstates):
            main.push()
            if second and t.chance(40):
                side.push()
            if burst:
                burst -= 1
                st.probe("rendered in a burst")
            else:
                w.sleep(t.pick([0.01, 0.3, 2.0]) * t.draw(4))
                if t.chance(20):
                    burst = t.draw(8)
        # rendering pauses, faults stop
        plan.calm()
        w.wait(lambda: all(v.server.stalled_until <= w.now for v in views.values()), 60.0,
               "settle")
        stop["flag"] = True
        w.context = "settling"
        w.sleep(40.0)
        for v in views.values():
            settled(w, v)
        w.context = "closing"
        for v in views.values():
            v.viewer.close()

    def settled(w, v):
        bs = v.browsers
        last = len(v.dl.rendered) - 1
        for b in bs:
            out.judged += 1
            if last < 0:
                continue
            if b.link is None:
                raise Violation("C18", "not reachable", "browser %d can not connect after faults "
                                "stopped" % b.ident)
            info = b.sessions[-1]
            if last not in (info.get("set") or ()):
                raise Violation("C18", "not converged", "browser %d shows state %s, the last state "
                                "rendered is %d; server errors: %s" % (
                                    b.ident, sorted(info.get("set") or ["none"]), last,
                                    [(n, repr(e)) for _, n, e in w.background_errors]))
        for b in bs:
            for info in b.sessions:
                if info["joined"] is not None and not info["states"]:
                    end = info["ended"] if info["ended"] is not None else w.now
                    room = 2.0 * (plan.blat + b.slow) + 1.0 + plan.stall_total
                    if info.get("low", -1) >= 0 and end - info["joined"] > room:
                        raise Violation("C18", "joiner not current", "browser %d was connected for "
                                        "%.1f s without receiving any state" % (
                                            b.ident, end - info["joined"]))
                st.states.add((len(info["states"]), info.get("low"), last, nbrowsers))

    web.run_world(plan, t, st, out.log, body, "C18")


# ---------------------------------------------------------------------- C21
def run_c21(scn, clubs, tape, out):
    t, st = tape, out.stats
    plan = fault_plan(t, st)
    plan.int_left = None
    plan.capacity = t.pick([1 << 20, 3000, 600])
    if plan.crash is None and t.chance(50):
        plan.crash = t.pick([("time", 8.0), ("ops", 400), ("ops", 6000)])
    if t.chance(30):
        plan.p_reset_conn = 90
    host, kw = draw_kw(t)
    prof = {"max_players": 7, "max_combos": 60}
    game = Game(t, clubs, prof)
    plain = Game.__new__(Game)
    plain.__dict__.update(game.__dict__)
    plain.tb = Table(clubs, game.cfg, game.seed)
    calls = 4 + t.draw(30)
    naps = t.chance(25)
    out.log.append("table %s %s" % (game.label, game.cfg))

    def body(w):
        jump_clock(w, plan)
        base = aliens(t, w, plan, 15)
        if t.chance(15):
            kw["port"] = base + t.draw(4)
        failed = 0
        for k in range(calls):
            m = t.draw(8)
            what, res = game.advance(m)
            what2, res2 = plain.advance(m)
            out.judged += 1
            if what != what2 or res.key() != res2.key():
                raise Violation("C21", "game differs", "call %d (%s) with the web view: %s; "
                                "without it: %s" % (k, what, res.brief(), res2.brief()))
            if game.tb.fingerprint() != plain.tb.fingerprint():
                raise Violation("C21", "game differs", "after call %d (%s) the tables differ: %s / "
                                "%s" % (k, what, game.tb.fingerprint(), plain.tb.fingerprint()))
            if not t.chance(75):
                continue
            opening = game.tb.dealer.viewer is None
            if opening and failed >= 3:
                continue
            nap = t.pick([0, 0.1, 1.5]) if naps else 0
            t0, stall0 = w.now, plan.stall_total
            slow = plan.slow_total = 0.0
            w.context = "rendering (call %d%s)" % (k, ", opening" if opening else "")
            before = len(w.viewers)
            gone = not opening and all(p.dead for p in w.procs[1:])
            sent = sent_to(w)
            if nap:
                r = game.tb._call(lambda: game.tb.dealer.render("human", nap, **kw))
            else:
                r = game.tb._call(lambda: game.tb.dealer.render("human", **kw))
            took = w.now - t0
            if r.exc is None and gone and sent == sent_to(w):
                raise Violation("C21", "lost in silence", "render (call %d) returned although its "
                                "server had ended and nothing was sent anywhere" % k)
            ends = max([p.stalled_until for p in w.procs] + [0.0])
            limit = (WAITS * WAIT_S + SLACK_S if opening else 3.0) + nap + max(
                plan.stall_total - stall0, ends - t0 if ends > t0 else 0.0)
            st.probe("render raised" if r.exc is not None else "render returned")
            if r.exc is not None:
                w.log("render raised %s: %s" % (type(r.exc).__name__, str(r.exc)[:80]))
            if took > limit:
                raise Violation("C21", "blocked", "render took %.1f s (limit %.1f s)" % (
                    took, limit))
            if r.exc is None and nap and took < nap * 0.999:
                raise Violation("C21", "no pause", "render(sleep=%s) returned after %.3f s" % (
                    nap, took))
            if opening and r.exc is not None:
                failed += 1
                for v in w.viewers[before:]:
                    try:
                        web.discard(v)
                    except Exception:  # noqa
                        st.probe("discard raised (C17)")
            if game.tb.fingerprint() != plain.tb.fingerprint():
                raise Violation("C21", "game differs", "render after call %d changed the table: %s"
                                " / %s" % (k, game.tb.fingerprint(), plain.tb.fingerprint()))
            st.states.add((opening, type(r.exc).__name__, len([p for p in w.procs if p.dead]),
                           tuple(sorted(st.faults))))
            if t.chance(20):
                w.sleep(t.draw(30) / 10.0)
            if t.chance(6) and game.tb.dealer.viewer is not None:
                v = game.tb.dealer.viewer
                w.context = "closing"
                try:
                    v.close()
                except Exception:  # noqa
                    st.probe("close raised (C19)")
                st.probe("viewer closed during the game")
                if t.chance(50):
                    game.tb.dealer.viewer = None
        st.probe("calls compared", calls)

    web.run_world(plan, t, st, out.log, body, "C21")


# ---------------------------------------------------------------------- C20
SUIT_PAINT = {"♠": "card-spade", "♥": "card-heart", "♦": "card-diamond", "♣": "card-club"}
CLEAR = (None, "", "transparent", "none")
WHITE = ("#ffffff", "#fff", "white")


def num(x):
    return str(int(x)) if x == int(x) else str(x)


def face(name):
    return ["10" if name[0] == "T" else name[0], "url(#%s)" % SUIT_PAINT[name[1]]]


def page_problem(view, state, spec):
    """the first difference between the page and the state it received last"""
    n, holes, board = spec
    if view["error"]:
        return "script", "the page script failed: %s" % view["error"]
    if len(view["seats"]) != n or len(view["commits"]) != n:
        return "seats", "the page shows %d seats and %d commitments for %d players" % (
            len(view["seats"]), len(view["commits"]), n)
    if view["community"] is None or len(view["community"]) != board + 1:
        return "board", "the page has no place for %d community cards" % board
    if not state:
        return None
    back, blank = ["", "url(#card-back)"], ["", "url(#card-blank)"]
    for i in range(n):
        seat, com = view["seats"][i], view["commits"][i]
        if seat["stack"] != num(state["stacks"][i]):
            return "stack", "seat %d shows the stack %s instead of %s" % (
                i, seat["stack"], state["stacks"][i])
        if com["commit"] != num(state["street_commits"][i]):
            return "commitment", "seat %d shows the commitment %s instead of %s" % (
                i, com["commit"], state["street_commits"][i])
        want = [face(c) for c in state["hole_cards"][i]] if state["active"][i] else [back] * holes
        got = [c[:2] for c in seat["cards"]]
        if got != want:
            return "hole cards", "seat %d (%s) shows %s instead of %s" % (
                i, "still in" if state["active"][i] else "out", got, want)
        turn = str(seat["turn"]).lower() not in WHITE
        if turn != (state["action"] == i):
            return "turn", "seat %d is %smarked as to act; it is the turn of %s" % (
                i, "" if turn else "not ", state["action"])
        if (com["button"] not in CLEAR) != (state["button"] == i):
            return "button", "seat %d: button shown as %s; the button is at %s" % (
                i, com["button"], state["button"])
        if com["button"] not in CLEAR and com["button"] == "black":
            return "button", "seat %d: button shown as %s" % (i, com["button"])
    want = [back] + [face(c) for c in state["community_cards"]]
    want += [blank] * (board + 1 - len(want))
    got = [c[:2] for c in view["community"]]
    if got != want:
        return "board", "the board shows %s instead of %s" % (got, want)
    if view["pot"] != num(state["pot"]):
        return "pot", "the pot shows %s instead of %s" % (view["pot"], state["pot"])
    for name in set(c[1] for s in view["seats"] for c in s["cards"]) | set(
            c[1] for c in view["community"]):
        if name and name.startswith("url(#") and name[5:-1] not in view["paints"]:
            return "paint", "the page has no picture %s" % name
    return None


def run_c20(scn, clubs, tape, out):
    t, st = tape, out.stats
    plan = fault_plan(t, st, mild=True)
    plan.capacity = t.pick([1 << 20, 1500])
    plan.blat = t.pick([0.01, 0.1, 1.0])
    if t.chance(30):
        plan.stalls = (1 + t.draw(3), t.pick([0.5, 4.0]))
    via_dealer = t.chance(45)
    game = feed = None
    if via_dealer:
        game = Game(t, clubs, {"max_players": 9, "max_combos": 60, "stack": [
            (3, "small"), (3, "mid"), (2, "tiny"), (1, "big")]})
        out.log.append("table %s" % game.label)
        spec = (game.cfg["num_players"], game.cfg["num_hole_cards"],
                sum(game.tb.dealer.num_community_cards))
    else:
        spec = (t.between(2, 12), t.between(1, 6), t.draw(8))
        feed = Feed(t, clubs, *spec)
        out.log.append("viewer for %d players, %d hole cards, %d community cards" % spec)
    host_proc = scn.page_host()
    host_proc.ask(op="clear")
    nstates = 3 + t.draw(t.pick([5, 15, 40]))
    nbrowsers = 1 + t.draw(3)
    compare = t.pick([10, 30, 100])
    kw = {"port": 40000}

    def body(w):
        stop = {"flag": False}

        def on_state(b, info):
            if b.page is None:
                return
            x = info["states"][-1]
            out.judged += 1
            full = not x or t.chance(compare)
            view = host_proc.ask(op="event", id=b.page, name="config", args=[x], compare=full)
            b.shown += 1
            p = page_problem(view, x, spec)
            if p is None and full and view.get("differs"):
                mine, fresh = view["differs"]
                p = "left over", "after %d states the page shows %r; a fresh page which received " \
                    "only the last state shows %r" % (b.shown, mine, fresh)
            if p is not None:
                raise Violation("C20", p[0], "browser %d: %s; last state received: %s" % (
                    b.ident, p[1], json.dumps(x, ensure_ascii=False)[:700]))
            st.states.add((spec, b.shown, len(x.get("community_cards", ())) if x else -1,
                           tuple(x.get("active", ())) if x else ()))
        w.on_state = on_state
        stage = {"opened": 0}

        def show():
            w.context = "rendering"
            if game is not None:
                game.advance(t.draw(8))
                game.tb.dealer.render("human", **(kw if game.tb.dealer.viewer is None else {}))
                return game.tb.dealer.viewer
            if stage.get("viewer") is None:
                stage["viewer"] = open_viewer(w, clubs, spec, kw)
                if t.chance(50):
                    return stage["viewer"]
            stage["viewer"].render(feed.next()[0])
            return stage["viewer"]

        viewer = show()

        def load(b):
            """open the page: fetch it and its scripts from the server"""
            try:
                html = w.urlopen("http://127.0.0.1:%d/" % b.port, 30.0).read().decode("utf8")
                scripts = {}
                for src in host_proc.ask(op="scan", html=html)["scripts"]:
                    if src.startswith("/"):
                        scripts[src] = w.urlopen("http://127.0.0.1:%d%s" % (b.port, src), 30.0
                                                 ).read().decode("utf8")
            except (OSError, http.client.HTTPException) as e:
                w.log("browser %d can not load the page: %s" % (b.ident, type(e).__name__))
                return False
            b.loads += 1
            page = "%d/%d" % (b.ident, b.loads)
            r = host_proc.ask(op="load", id=page, html=html, scripts=scripts)
            if r["error"]:
                raise Violation("C20", "script", "the page script failed: %s" % r["error"])
            if not scripts or "config" not in r["handlers"]:
                raise Violation("C20", "script", "the page does not listen for table states: %s" %
                                r["handlers"])
            b.page, b.shown = page, 0
            w.log("browser %d loaded the page" % b.ident)
            return True

        def tell(b, name):
            if b.page is not None:
                host_proc.ask(op="event", id=b.page, name=name, args=[], compare=False)

        def browser(ident):
            b = web.Browser(w, ident, kw["port"])
            b.page, b.shown, b.loads = None, 0, 0
            b.slow = t.pick([0.0, 0.0, 0.5])
            plan.browsers.append(b)

            def live():
                w.sleep(t.draw(20) / 10.0)
                while True:
                    if b.page is None and not load(b):
                        w.sleep(0.5)
                        continue
                    if b.link is None and b.connect():
                        tell(b, "connect")
                    if stop["flag"] and b.link is not None:
                        return
                    w.sleep(0.05 + t.draw(60) / 20.0)
                    if stop["flag"] or b.link is None:
                        continue
                    r = t.draw(100)
                    if r < 12:
                        st.fault("browser connection dropped")
                        b.drop("network")
                        tell(b, "disconnect")
                    elif r < 20:
                        st.fault("page reloaded")
                        b.drop("reload")
                        b.page = None
            return b, live

        bs = []
        for i in range(nbrowsers):
            b, live = browser(i)
            bs.append(b)
            w.spawn(live, w.outside, "browser")
        for _ in range(nstates):
            if t.chance(6):
                st.fault("server restarted")
                w.context = "closing"
                viewer.close()
                stage["viewer"] = None
                if game is not None:
                    game.tb.dealer.viewer = None
                w.sleep(t.draw(30) / 10.0)
            viewer = show()
            w.sleep(t.pick([0.0, 0.3, 1.0]) * t.draw(4))
        plan.calm()
        w.wait(lambda: all(p.stalled_until <= w.now for p in w.procs), 60.0, "settle")
        stop["flag"] = True
        w.context = "settling"
        w.sleep(40.0)
        for b in bs:
            if b.shown == 0 or b.link is None:
                raise Violation("C20", "nothing shown", "browser %d received no state after faults "
                                "stopped" % b.ident)
        viewer.close()

    web.run_world(plan, t, st, out.log, body, "C20")
