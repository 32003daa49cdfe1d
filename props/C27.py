"""C27: tracking distributed over worker processes."""
import os, shutil, sys, tempfile
from engine.harness import Registry
from props.lib import *
from props.C06 import fresh
from props.C21 import Patched
R = Registry("C27")
R.bounds = {"hits": "0-5 with symbolic coordinates", "workers": "1-4", "schedules": "every order in which up to three workers finish within three polls each; any one or more of them failing", "restarts": "up to three runs of one process"}
R.assumptions = ["starting a process is a stand-in that runs xboa_tracking_process.main in this process when the schedule says that the worker ends, or not at all if it is to fail",
                 "pickle and the file system are those of Python (the pickle holds references to the symbolic values)", "workers are polled in the order of the code; a worker ends between two polls"]
L = 1000


def setup(sym):
    import xboa.tracking
    import xboa.tracking.tracking_process
    import xboa.tracking.tracking_process.xboa_tracking_process
R.setup = setup


def TP():
    import xboa.tracking.tracking_process as m
    return m


def MT():
    import xboa.tracking
    return xboa.tracking.MultiTrack


class Worker:
    """subprocess.Popen: ends after some polls; then its output is there, unless it failed."""
    number = 0

    def __init__(self, world, args):
        self.world, self.args = world, args
        k = len(world.started)
        world.started.append(self)
        self.pid = 1000 + k
        self.left, self.code = world.schedule(k)
        self.returncode, self.killed = None, None

    def poll(self):
        self.world.polls += 1
        if self.world.polls > 200:
            raise RuntimeError("polled for ever")
        if self.returncode is None:
            if self.killed is not None:
                self.returncode = -self.killed
            elif self.left > 0:
                self.left = self.left - 1
            else:
                self.end()
        return self.returncode

    def end(self):
        if self.code == 0:
            m = sys.modules["xboa.tracking.tracking_process.xboa_tracking_process"]
            old = sys.argv
            sys.argv = [str(a) for a in self.args]
            try:
                m.main()
            finally:
                sys.argv = old
        self.returncode = self.code

    def kill(self):
        self.killed = 9

    def terminate(self):
        self.killed = 15

    def wait(self, timeout=None):
        while self.poll() is None:
            pass
        return self.returncode


class World:
    """A scratch directory and the stand-in for subprocess; schedule(k) gives polls before worker k ends, and its exit code."""
    def __init__(self, schedule):
        self.schedule, self.started, self.polls = schedule, [], 0

    def __enter__(self):
        import xboa.tracking.tracking_process._tracking_process as base
        import xboa.tracking.tracking_process._this_node_process as node
        fresh()
        self.dir = tempfile.mkdtemp(prefix="c27_")
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        with open("hits_out.pickle", "w") as f:
            f.write("mine")
        real = node.subprocess
        world = self

        class Fake:
            def __getattr__(self, n):
                return getattr(real, n)

            def Popen(self, args, *a, **k):
                return Worker(world, args)
        self.patch = Patched(node, subprocess=Fake())
        self.patch.__enter__()
        self.cls = base.TrackingProcess
        self.defaults = self.cls.__init__.__defaults__
        self.cls.__init__.__defaults__ = (os.path.join(self.dir, "jobs"),)
        self.out = sys.stdout
        sys.stdout = open(os.devnull, "w")
        return self

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.out
        self.cls.__init__.__defaults__ = self.defaults
        self.patch.__exit__()
        self.mine = sorted(os.listdir(self.dir)), open(os.path.join(self.dir, "hits_out.pickle")).read() if os.path.exists(os.path.join(self.dir, "hits_out.pickle")) else None
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)

    def clean(self, ctx):
        """Nothing was written or removed outside the directories of the jobs."""
        ctx.check("only job directories", self.mine == (["hits_out.pickle", "jobs"], "mine"))


def tracking(ctx):
    import xboa.tracking
    m = [[1.0 if i == j else 0.0 for j in range(6)] for i in range(6)]
    m[0][1], m[2][0] = 0.5, 2.0
    z = ctx.np.matrix([[0.0] * 6])
    return xboa.tracking.MatrixTracking([ctx.np.matrix(m)], [z], z)


def hits(ctx, n, nm="h"):
    hs, st = [], []
    for i in range(n):
        h, s = mk(ctx, "%s%d" % (nm, i), ["x", "y"], L, px=1.0, energy=200.0, mass=100.0, pid=-13, spill=i, event_number=7)
        hs.append(h)
        st.append(s)
    return hs, st


def results(ctx, label, out, st):
    """One list per hit, in order: the hit itself and its image."""
    c = ctx.const
    ctx.check(label + ": number", len(out) == len(st))
    for i, (o, s) in enumerate(zip(out, st)):
        ctx.check("%s: outputs %d" % (label, i), len(o) == 2 and o[0]["spill"] == s["spill"] and o[1]["spill"] == s["spill"])
        ctx.eqs("%s: first %d" % (label, i), [o[0]["x"], o[0]["y"]], [s["x"], s["y"]], exact=True)
        ctx.eqs("%s: image %d" % (label, i), [o[1]["x"], o[1]["y"]], [c(s["x"]) + 0.5, c(s["y"]) + 2 * c(s["x"])])


def now(k):
    return 0, 0


@R.each([(n, p) for n in range(6) for p in (1, 2, 3, 4)])
def split(ctx, n, p):
    """However many hits and workers: one result per hit, in the order of the hits; the chunks are consecutive and even."""
    hs, st = hits(ctx, n)
    with World(now) as w:
        given = list(hs)
        template = TP().ThisNodeProcess(tracking(ctx))
        mt = MT()(p, template)
        out = mt.track_many(given)
        results(ctx, "result", out, st)
        ctx.check("recorded", mt.last is out or list(mt.last) == list(out))
        sizes = [len(j.hit_list) for j in mt.job_list]
        ctx.check("chunks", len(sizes) == p and sum(sizes) == n and max(sizes) - min(sizes) <= 1)
        ctx.check("consecutive", [h["spill"] for j in mt.job_list for h in j.hit_list] == list(range(n)))
        ctx.check("separate directories", len({j.out_dir for j in mt.job_list} | {template.out_dir}) == p + 1)
        ctx.check("one process each", len(w.started) == p)
        ctx.check("list left alone", len(given) == n and all(a is b for a, b in zip(given, hs)))
        for i in range(n):
            same(ctx, "hit %d" % i, hs[i], st[i])
        ctx.check("template not started", template.pid is None and not template.is_alive())
        out = mt.track_many(given[:1])
        results(ctx, "second result", out, st[:1])
    w.clean(ctx)


@R.each([(1, 1), (2, 2), (3, 2), (3, 3), (4, 3)], budget=60)
def order(ctx, n, p):
    """The order in which the workers finish makes no difference; until then their hits are left out."""
    hs, st = hits(ctx, n)
    delay = [ctx.int("delay%d" % k, 0, 2) for k in range(p)]
    with World(lambda k: (delay[k], 0)) as w:
        mt = MT()(p, TP().ThisNodeProcess(tracking(ctx)))
        results(ctx, "result", mt.track_many(hs), st)
        again = mt.get_return_value()
        results(ctx, "asked again", again, st)
        ctx.check("no worker left", all(j.is_alive() is False and j.exitcode == 0 for j in mt.job_list))
    w.clean(ctx)


@R.each([(2, 2, 1), (3, 2, 2), (3, 3, 2), (4, 3, 1)], budget=60)
def partial(ctx, n, p, asks):
    """Asking while workers run gives the results of those that have ended, in order, and all of them in the end."""
    hs, st = hits(ctx, n)
    delay = [ctx.int("delay%d" % k, 0, 3) for k in range(p)]
    with World(lambda k: (delay[k], 0)) as w:
        mt = MT()(p, TP().ThisNodeProcess(tracking(ctx)))
        jobs = mt.track_many_async(hs)
        ctx.check("jobs", list(jobs) == list(mt.job_list) and len(jobs) == p)
        chunks, i = [], 0
        for j in jobs:
            chunks.append(st[i:i + len(j.hit_list)])
            i += len(j.hit_list)
        for a in range(asks + 4):
            out = mt.get_return_value()
            done = [s for k in range(p) if w.started[k].returncode == 0 for s in chunks[k]]
            results(ctx, "ask %d" % a, out, done)
        results(ctx, "in the end", out, st)


@R.each([(2, 2), (3, 3), (4, 2)], budget=60)
def failing(ctx, n, p):
    """Workers that fail lose their own hits and no others."""
    hs, st = hits(ctx, n)
    code = [ctx.int("code%d" % k, 0, 2) for k in range(p)]
    with World(lambda k: (0, 0 if code[k] == 0 else 1)) as w:
        mt = MT()(p, TP().ThisNodeProcess(tracking(ctx)))
        out = mt.track_many(hs)
        chunks, i = [], 0
        for j in mt.job_list:
            chunks.append(st[i:i + len(j.hit_list)])
            i += len(j.hit_list)
        results(ctx, "result", out, [s for k in range(p) if code[k] == 0 for s in chunks[k]])
        ctx.check("codes", [j.exitcode for j in mt.job_list] == [0 if code[k] == 0 else 1 for k in range(p)])
    w.clean(ctx)


@R.each([2, 3], budget=60)
def restart(ctx, runs):
    """A process that is started again gives the result of the latest run; if that failed there is none."""
    data = [hits(ctx, 1, "r%d" % r) for r in range(runs)]
    code = [ctx.int("code%d" % k, 0, 1) for k in range(runs)]
    with World(lambda k: (0, 0 if code[k] == 0 else 3)) as w:
        p = TP().ThisNodeProcess(tracking(ctx))
        for r in range(runs):
            hs, st = data[r]
            p.set_hit_list(hs)
            p.start()
            p.join()
            tag, out = ctx.outcome(p.get_return_value)
            if code[r] == 0:
                ctx.check("result %d" % r, tag == "ok")
                results(ctx, "run %d" % r, out, st)
            else:
                good = tag == "raise" and isinstance(out, RuntimeError)
                ctx.check("no result of run %d" % r, good or r > 0 and any(code[q] == 0 for q in range(r)))
    w.clean(ctx)


@R.case(reach=["stopped"])
def tracking_raises(ctx):
    """A worker whose tracking raises leaves no output, whatever was there before."""
    hs, st = hits(ctx, 2)
    bad = ctx.choice([True, False])
    with World(now) as w:
        import xboa.tracking.tracking_process.xboa_tracking_process as m
        p = TP().ThisNodeProcess(tracking(ctx))
        p.set_hit_list(hs)
        p.start()
        p.join()
        results(ctx, "good", p.get_return_value(), st)
        if bad:
            p.set_hit_list([hs[0], "not a hit"])
        else:
            p.set_hit_list(hs[1:])
        w.schedule = lambda k: (0, 0)
        p.start()
        tag, e = ctx.outcome(p.proc.end)
        if not bad:
            ctx.check("ends", tag == "ok")
            results(ctx, "second", p.get_return_value(), st[1:])
        else:
            ctx.reach("stopped")
            ctx.check("the worker raises", tag == "raise")
            p.proc.returncode = 1
            ctx.raises("old output is not taken for new", p.get_return_value, exc=RuntimeError)
    w.clean(ctx)


@R.each(["kill", "terminate"])
def states(ctx, how):
    """A process is alive from its start to its end, is not started twice and gives no result before its end."""
    hs, st = hits(ctx, 2)
    n = ctx.int("polls", 1, 3)
    with World(lambda k: (n if k == 0 else 10, 0)) as w:
        p = TP().ThisNodeProcess(tracking(ctx))
        p.set_hit_list(hs)
        ctx.check("not started", p.is_alive() is False and p.pid is None and p.exitcode is None)
        for f in (p.get_return_value, p.kill, p.terminate):
            ctx.raises("before the start", f, exc=RuntimeError)
        p.start()
        ctx.check("process id", p.pid == w.started[0].pid)
        tag, e = ctx.outcome(p.start)
        ctx.check("not twice", tag == "raise" and isinstance(e, RuntimeError) and len(w.started) == 1)
        if n > 1:
            ctx.raises("no result yet", p.get_return_value, exc=RuntimeError)
        p.join()
        ctx.check("ended", p.is_alive() is False and p.exitcode == 0)
        results(ctx, "result", p.get_return_value(), st)
        p.start()
        ctx.check("runs", p.is_alive() is True and p.exitcode is None)
        getattr(p, how)(5)
        ctx.check("stopped", p.is_alive() is False and p.exitcode == (-9 if how == "kill" else -15))
    w.clean(ctx)


@R.case()
def join(ctx):
    """Waiting ends with the process or the time, whichever comes first."""
    import xboa.tracking.tracking_process._tracking_process as base
    n, limit = ctx.int("polls", 0, 3), ctx.real("limit", 0, 5)
    clock = [0.0]

    class Clock:
        def time(self):
            clock[0] += 1.0
            return clock[0]
    hs, st = hits(ctx, 1)
    with World(lambda k: (n, 0)) as w:
        p = TP().ThisNodeProcess(tracking(ctx))
        p.set_hit_list(hs)
        p.start()
        with Patched(base, time=Clock()):
            p.join(limit)
        done = w.started[0].returncode is not None
        ctx.check("ended or timed out", done or ctx.const(clock[0]) - 1.0 >= limit)
        ctx.check("not longer than that", done or ctx.const(clock[0]) - 3.0 < limit)
        with Patched(base, time=Clock()):
            p.join()
        ctx.check("ended", w.started[0].returncode == 0)


@R.case()
def alone(ctx):
    """Tracking one hit needs no worker; a process read back from its directory tracks the same."""
    hs, st = hits(ctx, 2)
    with World(now) as w:
        t = TP().ThisNodeProcess(tracking(ctx))
        mt = MT()(2, t)
        out = mt.track_one(hs[0])
        results(ctx, "one", [out], st[:1])
        ctx.check("recorded", len(mt.last) == 1 and not w.started)
        t.set_hit_list(hs)
        q = TP().TrackingProcess.new_from_pickle(t.out_dir)
        ctx.check("read back", type(q) is TP().ThisNodeProcess and q.out_dir == t.out_dir and q is not t)
        results(ctx, "read back", q.run(), st)
        results(ctx, "here", t.run(), st)
    w.clean(ctx)


@R.each(["start", "is_alive", "terminate", "kill"])
def base(ctx, name):
    with World(now) as w:
        p = TP().TrackingProcess(None, os.path.join(w.dir, "jobs"))
        ctx.raises("to be supplied", getattr(p, name), exc=NotImplementedError)
