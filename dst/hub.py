"""Process-wide state of one simulated run (one run per forked process, so globals are private to the run)."""


class SimHang(BaseException):
    """Nothing can make progress any more: the real program would wait forever."""


class Hub:
    def __init__(self):
        self.reset()

    def reset(self):
        self.active = False        # seams dispatch to the simulator
        self.trace = []            # events recorded by instrumented callbacks
        self.faults = []           # armed faults of the current operation
        self.fired = {}            # fault kind -> count
        self.counters = {}
        self.probes = {}
        self.point = -1            # evolution counter inside this process / task
        self.task = None           # index of the task a worker executes
        self.in_worker = False
        self.choices = None
        self.pools = []            # every simulated pool created
        self.cpu = 4
        self.policy = 'random'
        self.sched = []            # scheduler events
        self.clock = 1_700_000_000.0
        self.clock_mode = 'normal'
        self.alloc = None          # {'n': nth call that fails, 'where': None|'kron'|'expm'}
        self.alloc_calls = 0
        self.steps = 0             # evolution steps simulated
        self.simtime = 0.0
        self.current_cb = None
        self.fs = None
        self.clock_read = None
        self.in_guard = False
        self.lib_depth = 0
        self.cb_count = 0          # callbacks executed by the current run in this process
        self.cb_bound = None       # more than this many means that the run does not end

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def ev(self, *what):
        self.trace.append(what)


H = Hub()
