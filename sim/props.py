"""What each check runs: workload profile, oracle, amount of search."""
from . import loader, roomchecks as rc


class Scenario:
    prop = "?"
    instrument = False
    web = False
    needs_faults = True
    level = "exploration"
    shrink_s = 60
    runs = {"quick": 400, "thorough": 8000}
    rule = ""
    state_measure = ""
    real = []
    stub = []
    assumptions = []

    def __init__(self, tier):
        self.tier = tier

    def prepare(self):
        import clubs
        self.clubs = clubs

    def extra(self, tier, master):
        return None

    def run(self, tape, out):
        raise NotImplementedError


ROOM_RULE = (
    "one case = one simulated session at one table: configuration, personalities, network "
    "faults, house and spectator actions drawn from the choice tape of one seed; evaluations = "
    "calls the oracle judged; a session is non-trivial if the oracle judged at least one call "
    "and at least one fault was injected; distinct = different full event histories")
ROOM_STATES = (
    "distinct abstract betting states after an action: (seats, live, all-in, board size, "
    "can check, raising closed, fixed size, street has bets, seat relative to button, done flags)")
ROOM_REAL = ["clubs.poker.engine.Dealer", "clubs.poker.card", "clubs.poker.evaluator",
             "clubs.render.ascii_viewer"]
ROOM_STUB = ["players, network, turn clock, house and spectators (simulated)",
             "random module state (seeded per table)"]


class RoomScenario(Scenario):
    checker = None
    prof = {}
    rule = ROOM_RULE
    state_measure = ROOM_STATES
    real = ROOM_REAL
    stub = ROOM_STUB
    assumptions = [
        "sessions are sampled, not enumerated",
        "supported decks: more ranks than cards in a hand (except one-card hands), enough "
        "cards for a full deal, no rarity ties unless an order is given",
    ]

    def run(self, tape, out):
        from .room import Room
        chk = self.checker()
        room = None
        try:
            room = Room(self.clubs, tape, chk, self.prof)
            room.run(max(500, room.max_events))
        finally:
            out.judged = chk.judged
            if room is not None:
                out.stats = room.stats
                out.log = room.log


NET = {"drop": (50, 20), "dup": (60, 40), "strict": (40, 100)}


def room(prop_id, checker_cls, knobs, runs=None, tier_scale=40, **prof):
    k = dict(NET)
    k.update(knobs)
    p = {"knobs": k}
    p.update(prof)

    class S(RoomScenario):
        prop = prop_id
        checker = checker_cls
    S.prof = p
    n = runs or 10000
    S.runs = {"quick": n, "thorough": n * tier_scale}
    return S


SHORT = [(20, "tiny"), (16, "small"), (8, "mid"), (4, "big"), (1, "huge")]
# amounts the printed table has room for
PRINTABLE = [(3, "small"), (3, "mid"), (2, "tiny"), (1, "big")]

# numbers which are no bet in a hand, but a finished hand takes every number
END_BETS = [float("inf"), float("-inf"), float("nan"), 10 ** 400, -10 ** 400]

REGISTRY = {
    "C01": room("C01", rc.C01, {"rebuy": (60, 60), "midreset": (20, 4), "reset_stacks": (50, 40),
                                "after_end": (30, 60)}, stack=SHORT),
    "C02": room("C02", rc.C02, {"rebuy": (40, 50), "midreset": (10, 3), "reset_stacks": (60, 40)}),
    "C03": room("C03", rc.C03, {"rebuy": (50, 60), "midreset": (15, 4), "reset_stacks": (50, 40)},
                stack=SHORT),
    "C04": room("C04", rc.C04, {"rebuy": (50, 60), "midreset": (15, 4), "reset_stacks": (50, 40),
                                "after_end": (30, 60)}, stack=SHORT),
    "C05": room("C05", rc.C05, {"rebuy": (60, 70), "trick": (70, 80), "reset_stacks": (50, 40),
                                "hands": 12}, stack=SHORT),
    "C06": room("C06", rc.C06, {"after_end": 80, "end_bets": END_BETS, "passive": (50, 30), "reset_stacks": (50, 40),
                                "dup": 40}, stack=SHORT),
    "C07": room("C07", rc.C07, {"rebuy": (80, 80), "midreset": (30, 6), "reset_stacks": (40, 30),
                                "reset_button": (50, 40), "hands": 20}, stack=SHORT),
    "C08": room("C08", rc.C08, {"trick": (70, 80), "midreset": (30, 6), "reset_stacks": (60, 60),
                                "hands": 14}),
    "C09": room("C09", rc.C09, {"corrupt": (80, 30), "badtrick": (30, 30), "trick": (30, 60), "badmode": (50, 30), "refused": (70, 60),
                                "midreset": (40, 8), "rebuy": (40, 50), "reset_stacks": (20, 30)},
                stack=SHORT),
    "C10": room("C10", rc.C10, {"hostile": (60, 60), "midreset": (20, 5), "reset_stacks": (50, 40),
                                "winp": (50, 40)}),
    "C13": room("C13", rc.C13, {"passive": (50, 30), "after_end": (40, 60), "rebuy": 0,
                                "reset_stacks": (50, 40), "dup": (60, 40)}, runs=6000,
                stack=PRINTABLE),
    "C15": room("C15", rc.C15, {"winp": 70, "reset_stacks": (50, 40), "trick": (30, 50)},
                runs=2500, winp_cost=40000, max_combos=60),
}


from . import seqchecks, threads  # noqa


class C11S(RoomScenario):
    prop = "C11"
    prof = {"knobs": {"drop": (50, 20), "dup": (60, 40), "passive": (40, 30),
                      "trick": (40, 50), "rebuy": (40, 40), "midreset": (30, 5),
                      "corrupt": (30, 10), "reset_stacks": (50, 40), "hands": 6}}
    runs = {"quick": 4000, "thorough": 160000}
    peer = None
    stub = ROOM_STUB + ["wall clock during re-runs (jumping)"]

    def run(self, tape, out):
        seqchecks.run_c11(self, self.clubs, tape, out, self.prof)


class C12S(RoomScenario):
    prop = "C12"
    instrument = True
    prof = {"max_players": 5, "max_combos": 21, "preset": 20}
    runs = {"quick": 3000, "thorough": 120000}
    rule = ("one case = two or three threads (tables, or evaluations on a shared evaluator) under "
            "one schedule with preemption in front of any clubs statement; evaluations = events "
            "compared with the solo run in a pristine copy of the modules; non-trivial = at least "
            "one preemption inside clubs code; distinct = different schedules and histories")
    state_measure = "distinct (thread, events, switches) outcomes"
    stub = ["threads (greenlets switched by the tape)", "random state and stdout per thread"]

    def run(self, tape, out):
        threads.run(self.clubs, tape, out, self.prof)


class C14S(RoomScenario):
    prop = "C14"
    instrument = True
    prof = {"knobs": {"passive": (70, 40), "winp": (60, 40), "broken_out": (70, 40),
                      "abort": (80, 60), "drop": (40, 20), "dup": (40, 30),
                      "reset_stacks": (50, 40), "after_end": (30, 50), "hands": 6},
            "winp_cost": 1500, "max_combos": 60}
    runs = {"quick": 4500, "thorough": 180000}
    real = ROOM_REAL + ["clubs statements instrumented with interruption points at load time"]

    def run(self, tape, out):
        chk = rc.C14()
        room = None
        try:
            room = seqchecks.LookRoom(self.clubs, tape, chk, self.prof)
            room.run(400)
        finally:
            out.judged = chk.judged
            if room is not None:
                out.stats, out.log = room.stats, room.log


class C16S(RoomScenario):
    prop = "C16"
    instrument = True
    prof = {"max_combos": 60}
    runs = {"quick": 4000, "thorough": 160000}
    rule = ("one case = a session whose bets and resets are aborted in front of drawn statements, "
            "followed by a full reset and hands played in parallel with a new table; evaluations = "
            "calls compared with the new table; non-trivial = at least one call really aborted; "
            "distinct = different event histories")
    state_measure = "distinct (seats, aborted calls, hands compared, stacked deck)"
    real = ROOM_REAL + ["clubs statements instrumented with interruption points at load time"]

    def run(self, tape, out):
        seqchecks.run_c16(self.clubs, tape, out, self.prof)


class C22S(RoomScenario):
    prop = "C22"
    instrument = True
    prof = {"knobs": {"drop": (50, 20), "dup": (60, 40), "passive": (40, 30), "winp": (20, 20),
                      "trick": (40, 50), "rebuy": (40, 40), "midreset": (30, 5),
                      "after_end": (30, 50), "reset_stacks": (50, 40), "hands": 6},
            "winp_cost": 600, "max_combos": 60}
    runs = {"quick": 3000, "thorough": 120000}
    peer = None
    rule = ("one case = a session whose table is saved, copied and lost in crashes at drawn "
            "statements; evaluations = calls compared with the session without any of that; "
            "non-trivial = at least one save, copy or crash; distinct = different event histories")
    state_measure = "distinct (seats, crash rate, copy rate, saves, copies)"
    real = ROOM_REAL + ["pickle and copy", "clubs statements instrumented with interruption points "
                        "at load time"]

    def run(self, tape, out):
        seqchecks.run_c22(self, self.clubs, tape, out, self.prof)


WEB_RULE = (
    "one case = one simulated life of a web view: configuration, delays, schedule and faults drawn "
    "from the choice tape of one seed; evaluations = %s; non-trivial = something judged and at "
    "least one fault injected; distinct = different event histories")
WEB_REAL = ["clubs.render.graphic (viewer and server function)", "clubs.poker.engine",
            "Flask", "flask_socketio and python-socketio (events, rooms, packets)"]
WEB_STUB = ["processes and signals", "multiprocessing connections (real framing, simulated streams)",
            "listening ports and other programs on them", "HTTP and engine.io transport",
            "gevent (cooperative tasks)", "clocks", "browsers"]


class WebScenario(Scenario):
    rule = WEB_RULE
    web = True
    state_measure = "distinct (outcome, timing and fault-set) combinations"
    real = WEB_REAL
    stub = WEB_STUB
    needs_faults = False
    assumptions = ["runs are sampled, not enumerated",
                   "tasks of the server switch only at blocking calls, as under gevent",
                   "a connection attempt to a local address is answered or refused at once"]
    runner = None
    prepared = False

    def prepare(self):
        import clubs
        self.clubs = clubs
        from . import web
        web.track(clubs.render.GraphicViewer)

    def run(self, tape, out):
        type(self).runner(self, self.clubs, tape, out)


def web_scn(prop_id, func, quick, what, **kw):
    class S(WebScenario):
        prop = prop_id
        runner = staticmethod(func)
        runs = {"quick": quick, "thorough": quick * 40}
        rule = WEB_RULE % what
    for k, v in kw.items():
        setattr(S, k, v)
    return S


def _web():
    from . import webchecks as wc

    class C20S(WebScenario):
        prop = "C20"
        runner = staticmethod(wc.run_c20)
        runs = {"quick": 1800, "thorough": 100000}
        rule = WEB_RULE % "states received by pages"
        real = WEB_REAL + ["page template and page script (parse_config.js, in node)"]
        stub = WEB_STUB + ["DOM (sim/page.js, built from the served page)"]
        _host = None

        def page_host(self):
            if self._host is None:
                from . import web
                self._host = web.PageHost()
            return self._host
    return [
        web_scn("C17", wc.run_c17, 6000, "openings judged"),
        web_scn("C18", wc.run_c18, 3000, "states received by browsers and final states judged"),
        web_scn("C19", wc.run_c19, 4500, "closings judged"),
        C20S,
        web_scn("C21", wc.run_c21, 3000, "game calls compared with the game without web view"),
    ]


for _c in [C11S, C12S, C14S, C16S, C22S] + _web():
    REGISTRY[_c.prop] = _c


def scenario(prop, tier):
    return REGISTRY[prop](tier)
