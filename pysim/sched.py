"""A cooperative scheduler for real Python threads: exactly one runs, and the seeded schedule decides at
which bytecode boundary (or native point without the interpreter lock) which other one goes on."""
import _thread, ctypes, os, sys, time
import common

HERE = os.path.dirname(os.path.abspath(__file__))


class Injected(BaseException):
    pass


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit, "Injected": Injected}


MON = sys.monitoring
TOOL = 4


class Tracer:
    """Calls point(code, offset) before every bytecode, executed in threads that are switched on, of code that
    does not belong to the simulator."""

    def __init__(self, point):
        self.point = point
        self.ids = set()

    def callback(self, code, offset):
        if code.co_filename.startswith(HERE):
            return MON.DISABLE
        if _thread.get_ident() in self.ids:
            self.point(code, offset)

    def start(self):
        MON.use_tool_id(TOOL, "simulator")
        MON.register_callback(TOOL, MON.events.INSTRUCTION, self.callback)
        MON.set_events(TOOL, MON.events.INSTRUCTION)

    @staticmethod
    def stop():
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
        MON.free_tool_id(TOOL)

    def on(self):
        self.ids.add(_thread.get_ident())

    def off(self):
        self.ids.discard(_thread.get_ident())


class Stepper:
    """Counts bytecode boundaries of one call and acts at chosen ones."""

    def __init__(self, actions=None, where=None):
        self.n = 0
        self.actions = actions or {}
        self.where = where
        self.place = None
        self.fired = 0
        self.t = Tracer(self.point)

    def point(self, code, offset):
        if self.where and not self.where(code):
            return
        n = self.n
        self.n += 1
        a = self.actions.get(n)
        if a is not None:
            self.fired += 1
            self.place = f"{os.path.basename(code.co_filename)} {code.co_name}+{offset}"
            if isinstance(a, type):
                raise a()
            a()

    def run(self, f):
        self.t.start()
        self.t.on()
        try:
            return f()
        finally:
            self.t.off()
            self.t.stop()


class Sched:
    """threads: list of lists of thunks f(k) run in order. switches: [[gap, target], ...]. kills: {thread: (step, exception)}."""

    def __init__(self, bodies, switches, kills=None, stall=2.0, dead=20.0):
        self.bodies = bodies
        self.switches = list(switches)
        self.left = self.switches[0][0] if self.switches else 1 << 60
        self.at = 0
        self.cur = 0
        self.locks = [_thread.allocate_lock() for _ in bodies]
        self.done = [False] * len(bodies)
        self.steps = [0] * len(bodies)
        self.kills = kills or {}
        self.killed = {}
        self.total = 0
        self.handovers = 0
        self.native = 0
        self.stalls = 0
        self.log = []
        self.progress = 0
        self.end = _thread.allocate_lock()
        self.end.acquire()
        self.tids = {}
        self.stall, self.dead = stall, dead
        self.active = False

    # -- called in simulated threads
    def wait(self, me):
        self.parked.add(me)
        while self.cur != me:
            self.locks[me].acquire()
        self.parked.discard(me)

    def give(self, t):
        self.cur = t
        try:
            self.locks[t].release()
        except RuntimeError:
            pass  # it is not waiting: it will see that it is its turn

    def others(self, me):
        """Threads that could go on instead: those that wait for their turn."""
        return [t for t in range(len(self.done)) if not self.done[t] and t != me and t in self.parked]

    def point(self, code=None, offset=0, native=False):
        me = self.tids[_thread.get_ident()]
        self.progress += 1
        if self.cur != me:  # was blocked outside the scheduler while others went on
            self.wait(me)
        self.total += 1
        self.steps[me] += 1
        k = self.kills.get(me)
        if k and code is not None and self.steps[me] >= k[0]:
            del self.kills[me]
            self.killed[me] = True
            raise k[1]()
        if self.blocked:
            return  # until the end of this call: see settle
        self.left -= 1
        if self.left > 0:
            return
        target = self.switches[self.at][1]
        self.at += 1
        self.left = self.switches[self.at][0] if self.at < len(self.switches) else 1 << 60
        alive = self.others(me)
        if not alive:
            return
        t = alive[target % len(alive)]
        self.handovers += 1
        self.log.append((self.total, me, t))
        self.give(t)
        self.wait(me)

    def settle(self, me):
        """At the end of a call: let threads that were blocked on something this one held reach their next
        scheduling point, so that how quickly they wake up decides nothing."""
        end = time.monotonic() + 5
        while self.cur == me and self.blocked and time.monotonic() < end:
            self.progress += 1
            if all(t in self.parked or self.done[t] for t in self.blocked):
                self.blocked.clear()
            else:
                time.sleep(0.001)

    def native_point(self, what):
        if self.active and _thread.get_ident() in self.tids:
            self.native += 1
            if self.left < 200:
                self.left = 1
            self.point(native=True)

    def body(self, me):
        self.tids[_thread.get_ident()] = me
        self.ready.release()
        self.wait(me)
        t = self.tracer
        try:
            for f in self.bodies[me]:
                t.on()
                try:
                    f()
                finally:
                    t.off()
                if self.blocked:
                    self.settle(me)
        finally:
            self.done[me] = True
            self.progress += 1
            alive = [t for t in range(len(self.done)) if not self.done[t]]
            if not alive:
                self.end.release()
            elif self.cur == me:
                self.give((self.others(me) or alive)[0])

    def run(self):
        """Run to the end; returns None or what blocked."""
        self.parked = set()
        self.blocked = set()
        self.cur = None
        self.ready = _thread.allocate_lock()
        self.ready.acquire()
        self.active = True
        self.tracer = Tracer(self.point)
        for k in range(len(self.bodies)):
            _thread.start_new_thread(self.body, (k,))
            self.ready.acquire()
            while k not in self.parked:
                time.sleep(0)
        self.tracer.start()
        self.give(0)
        seen, since = -1, time.monotonic()
        while not self.end.acquire(timeout=0.25):
            now = time.monotonic()
            if self.progress != seen:
                seen, since = self.progress, now
            elif now - since > self.stall:
                # the running thread is blocked outside the scheduler: let others go on
                alive = self.others(self.cur)
                if alive:
                    seen = -1
                    self.blocked.add(self.cur)
                    self.stalls += 1
                    self.give(alive[0])
                elif now - since > self.dead:
                    self.active = False
                    self.tracer.ids.clear()
                    return f"deadlock: no thread can go on (unfinished: {[t for t in range(len(self.done)) if not self.done[t]]})"
        self.active = False
        self.tracer.stop()
        return None


HOOK = ctypes.CFUNCTYPE(None, ctypes.c_int)
_keep = []


def native_hook(f, steps):
    h = HOOK(f)
    _keep.append(h)
    os.environ["INTERPN_SIM_STEPS"] = str(steps)
    os.environ["INTERPN_SIM_HOOK"] = str(ctypes.cast(h, ctypes.c_void_p).value)


def no_native_hook():
    os.environ["INTERPN_SIM_HOOK"] = ""
