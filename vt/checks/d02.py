"""D02: scheduled jobs run exactly when due (virtual clock), and updaters keep the newest data."""
import asyncio
import datetime as dtm
import random
import selectors
import time
import types
import numpy as np
import pandas as pd
import schedule
import vectorbt as vbt
import vectorbt.data.updater as upd_mod
import vectorbt.utils.datetime_ as dt_mod
import vectorbt.utils.schedule_ as sch_mod
from vt.core import monitor, Skip
from vt.gen import pick

DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
UNITS = ["second", "minute", "hour", "day", "week"]
TD = dtm.timedelta


class Stop(BaseException):
    """Raised by the virtual world when its horizon is exceeded."""


class World:
    """A virtual clock replacing datetime.now, time.sleep, random.randint and the event loop's clock."""

    def __init__(self, start, on_sleep=None):
        self.start, self.us, self.on_sleep = start, 0, on_sleep
        self.saved = []

    @property
    def now(self):
        return self.start + TD(microseconds=self.us)

    def advance(self, seconds):
        self.us += int(round(float(seconds) * 1e6))

    def randint(self, a, b):
        return draw_interval(self.now, a, b)

    def sleep(self, seconds):
        self.advance(seconds)
        if self.on_sleep is not None:
            self.on_sleep()

    def put(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        world = self

        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, dtm.datetime)

        class FakeDT(dtm.datetime, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                if tz is not None:
                    return world.now.replace(tzinfo=dtm.timezone.utc).astimezone(tz)
                return world.now

            @classmethod
            def today(cls):
                return world.now

            @classmethod
            def utcnow(cls):
                return world.now

        shim = types.SimpleNamespace(**{k: getattr(dtm, k) for k in dir(dtm) if not k.startswith("__")})
        shim.datetime = FakeDT
        for m in (schedule, sch_mod, dt_mod, upd_mod):
            d = getattr(m, "datetime", None)
            if isinstance(d, types.ModuleType):
                self.put(m, "datetime", shim)
            elif d is dtm.datetime:
                self.put(m, "datetime", FakeDT)
            if getattr(m, "sleep", None) is time.sleep:
                self.put(m, "sleep", self.sleep)
        self.put(time, "sleep", self.sleep)
        self.put(random, "randint", self.randint)
        return self

    def __exit__(self, *a):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)

    def run(self, make):
        """Run a coroutine on an event loop whose time is the virtual clock."""
        world = self

        class Sel(selectors.SelectSelector):
            def select(self, timeout=None):
                r = super().select(0)
                if r or timeout == 0:
                    return r
                if timeout is None:
                    raise RuntimeError("the event loop waits for ever")
                world.us += max(int(round(timeout * 1e6)), 1)
                return r

        class Loop(asyncio.SelectorEventLoop):
            def time(self):
                return world.us / 1e6

        loop = Loop(Sel())
        loop._clock_resolution = 2e-6
        try:
            return loop.run_until_complete(make())
        finally:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            loop.run_until_complete(asyncio.sleep(0))
            loop.close()


def draw_interval(now, a, b):
    s = int((now - dtm.datetime(2000, 1, 1)).total_seconds())
    return a + (s * 7919 + a * 31 + s // 977) % (b - a + 1)


# ---------------------------------------------------------------- reference

def next_due(now, sp):
    k = sp["interval"] if sp.get("to") is None else draw_interval(now, sp["interval"], sp["to"])
    unit = "weeks" if sp.get("day") else sp["unit"].rstrip("s") + "s"
    period = TD(**{unit: k})
    t = now
    if sp.get("day"):
        t = t + TD(days=(DAYS.index(sp["day"]) - t.weekday()) % 7)
    at = sp.get("at")
    if at is not None:
        h, m, s = at
        if unit in ("days", "weeks"):
            t = t.replace(hour=h, minute=m, second=s, microsecond=0)
        elif unit == "hours":
            t = t.replace(minute=m, second=s, microsecond=0)
        else:
            t = t.replace(second=s, microsecond=0)
    if k != 1:
        t = t + period
    while t <= now:
        t = t + period
    return t


class MJob:
    """A job of the model: what it does at each of its runs and when it is due next."""

    def __init__(self, id, spec, script, tags, until):
        self.id, self.spec, self.script, self.tags, self.until = id, spec, script, tags, until
        self.k, self.next, self.job = 0, None, None

    def step(self):
        s = self.script[self.k] if self.k < len(self.script) else (0, None)
        self.k += 1
        return s

    def over(self, t):
        return self.until is not None and t > self.until


def simulate_fg(jobs, now, sleep, actions, end):
    log = []
    actions = list(actions)
    while True:
        due = sorted([j for j in jobs if now >= j.next], key=lambda j: j.next)
        for j in due:
            if j.over(now):
                jobs.remove(j)
                continue
            log.append((now, j.id, "start"))
            dur, out = j.step()
            now += TD(seconds=dur)
            log.append((now, j.id, "end"))
            if out in ("interrupt", "cancelled"):
                return log, now
            j.next = next_due(now, j.spec)
            if j.over(j.next) or out in ("cancel", "cancel()"):
                jobs.remove(j)
        now += TD(seconds=sleep)
        while actions and actions[0][0] <= now:
            jobs = act_model(jobs, actions.pop(0), now)
        if now > end:
            return log, now


def simulate_bg(jobs, now, sleep, actions, end):
    """Every due job starts at the tick; the next tick comes `sleep` after the longest of them."""
    log = []
    actions = list(actions)
    while now <= end:
        while actions and actions[0][0] <= now:
            a = actions.pop(0)
            if a[1] == "stop":
                return log
            jobs = act_model(jobs, a, a[0])
        last = now
        stop = None
        ran = []
        for j in [j for j in jobs if now >= j.next]:
            if j.over(now):
                ran.append((j, now, "cancel"))
                continue
            log.append((now, j.id, "start"))
            dur, out = j.step()
            e = now + TD(seconds=dur)
            ran.append((j, e, out))
            last = max(last, e)
            if out == "cancelled":
                stop = e if stop is None else min(stop, e)
        for a in actions:
            if a[1] == "stop" and a[0] <= last and (stop is None or a[0] < stop):
                # stopping cancels the jobs in flight, too
                for j, e, out in ran:
                    if e < a[0] and not j.over(now):
                        log.append((e, j.id, "end"))
                return log
        for j, e, out in ran:
            if j.over(now):
                jobs = [x for x in jobs if x is not j]
                continue
            log.append((e, j.id, "end"))
            if out == "cancelled":
                continue
            j.next = next_due(e, j.spec)
            if j.over(j.next) or out in ("cancel", "cancel()"):
                jobs = [x for x in jobs if x is not j]
        if stop is not None:
            return log
        now = last + TD(seconds=sleep)
        while actions and actions[0][0] <= now:
            a = actions.pop(0)
            if a[1] == "stop":
                return log
            jobs = act_model(jobs, a, a[0])
    return log


def act_model(jobs, action, now):
    _, what, arg = action
    if what == "cancel":
        return [j for j in jobs if j is not arg]
    if what == "clear":
        return [j for j in jobs if arg is not None and arg not in j.tags]
    arg.next = next_due(now, arg.spec)
    if arg.until is not None and arg.until < now:
        return jobs
    return jobs + [arg]


def act_real(m, action, add):
    _, what, arg = action
    if what == "cancel":
        if arg.job is not None:
            m.scheduler.cancel_job(arg.job)
    elif what == "clear":
        m.scheduler.clear(arg)
    else:
        add(arg)


# ---------------------------------------------------------------- generators

SCALES = {
    "s": (["second", "minute"], (1, 8), 280),
    "m": (["minute", "hour"], (20, 200), 6 * 3600),
    "d": (["hour", "day", "week", "day"], (600, 7200), 21 * 86400),
}


def draw_spec(rng, scale):
    u = pick(rng, SCALES[scale][0])
    sp = {"interval": 1}
    r = rng.random()
    if scale == "d" and r < 0.3:
        sp["day"] = pick(rng, DAYS)
        sp["unit"] = "week"
        if rng.random() < 0.6:
            sp["at"] = draw_at(rng)
        return sp
    sp["unit"] = u
    if rng.random() < 0.6:
        sp["interval"] = int(rng.integers(1, 6 if u != "second" else 40))
    if u in ("minute", "hour", "day") and rng.random() < 0.5:
        sp["at"] = draw_at(rng)
    if rng.random() < 0.25:
        sp["to"] = sp["interval"] + int(rng.integers(0, 5))
    return sp


def draw_at(rng):
    return int(rng.integers(0, 24)), int(rng.integers(0, 60)), int(pick(rng, [0, 0, 30, 59, 7]))


ZONES = [dtm.timezone.utc, dtm.timezone(TD(hours=5, minutes=30)), dtm.timezone(TD(hours=-7))]


def call_args(rng, sp):
    """Arguments of `every` for a specification; times in any accepted spelling."""
    args = []
    plural = sp["interval"] != 1 or rng.random() < 0.5
    unit = sp["unit"] + ("s" if plural else "")
    only_td = sp.get("at") is None and sp.get("day") is None and sp.get("to") is None and rng.random() < 0.15
    if only_td:
        args = [TD(**{sp["unit"] + "s": sp["interval"]})]
        return args
    if sp["interval"] != 1 or rng.random() < 0.4:
        args.append(sp["interval"])
    if sp.get("day"):
        if rng.random() < 0.3:
            args.append(pick(rng, ["week", "weeks"]))
        args.append(sp["day"])
    elif sp["unit"] == "second" and rng.random() < 0.4 and sp.get("at") is None:
        pass
    elif sp["unit"] == "day" and sp.get("at") is not None and rng.random() < 0.4:
        pass
    else:
        args.append(unit)
    if sp.get("at") is not None:
        h, m, s = sp["at"]
        u = "day" if sp.get("day") else sp["unit"]
        k = rng.random()
        if k < 0.4:
            t = dtm.time(h, m, s)
            if u == "day" and rng.random() < 0.5:
                z = pick(rng, ZONES)
                t = dtm.datetime(2020, 1, 15, h, m, s, tzinfo=dtm.timezone.utc).astimezone(z).timetz()
            args.append(t)
        elif u == "day":
            args.append(f"{h:02d}:{m:02d}:{s:02d}" if s or k < 0.7 else f"{h:02d}:{m:02d}")
        elif u == "hour":
            args.append(f"{m:02d}:{s:02d}" if s or k < 0.7 else f":{m:02d}")
        else:
            args.append(f":{s:02d}")
    return args


def draw_start(rng):
    y = int(pick(rng, [2019, 2020, 2021, 2024]))
    k = rng.random()
    if k < 0.25:
        base = dtm.datetime(y, 2, 27)
    elif k < 0.5:
        base = dtm.datetime(y, 12, 29)
    else:
        base = dtm.datetime(y, int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    s = base + TD(seconds=int(rng.integers(0, 86400)))
    if rng.random() < 0.3:
        s = s.replace(minute=pick(rng, [0, 59]), second=pick(rng, [0, 59]))
    if rng.random() < 0.3:
        s = s.replace(microsecond=250000)
    return s


def draw_tags(rng):
    t = [x for x in ["a", "b", 3] if rng.random() < 0.4]
    if len(t) == 1 and rng.random() < 0.5:
        return t[0], t
    if not t and rng.random() < 0.6:
        return None, t
    return pick(rng, [tuple, list, set])(t), t


def draw_world(ctx, bg):
    rng = ctx.rng
    scale = pick(rng, ["s", "m", "d", "d"])
    _, sl, horizon = SCALES[scale]
    sleep = int(rng.integers(*sl))
    start = draw_start(rng)
    end = start + TD(seconds=horizon)
    n = int(rng.integers(1, 6))
    big = {"s": 12, "m": 900, "d": 90000}[scale]
    mode = pick(rng, ["quick", "sync" if not bg else "async", "mixed"])

    def job(i):
        script = []
        stops = rng.random() < 0.3
        for _ in range(int(rng.integers(0, 8))):
            dur = 0 if mode == "quick" or rng.random() < 0.4 else int(rng.integers(1, big))
            out = pick(rng, [None] * 12 + (["cancel", "cancel()"] if stops else []) + ["value", "value"])
            script.append((dur, out))
        if rng.random() < 0.08:
            script.append((0, "cancelled" if bg or rng.random() < 0.5 else "interrupt"))
        until = start + TD(seconds=int(rng.integers(0, horizon))) if rng.random() < 0.2 else None
        tags, tl = draw_tags(rng)
        j = MJob(i, draw_spec(rng, scale), script, tl, until)
        j.tagarg = tags
        j.isasync = bg and (mode == "async" or rng.random() < 0.5 or any(d for d, _ in script))
        j.args = call_args(rng, j.spec)
        j.style = pick(rng, ["every", "every", "chain"])
        return j

    jobs = [job(i) for i in range(n)]
    actions = []
    for q in range(int(rng.integers(0, 4))):
        t = start + TD(seconds=int(rng.integers(1, horizon)), microseconds=437000)
        what = pick(rng, ["cancel", "clear", "add"])
        arg = pick(rng, jobs) if what == "cancel" else pick(rng, ["a", "b", 3, "zz"] + ([None] if rng.random() < 0.3 else [])) if what == "clear" else job(n + q)
        actions.append((t, what, arg))
    if bg and rng.random() < 0.7:
        actions.append((start + TD(seconds=int(rng.integers(0, horizon)), microseconds=437000), "stop", None))
    actions.sort(key=lambda a: a[0])
    return start, end, sleep, jobs, actions


def register(ctx, w, m, j, log):
    if j.isasync:
        async def work(tok, x=None):
            got(tok, x)
            log.append((w.now, j.id, "start"))
            dur, out = step()
            if dur:
                await asyncio.sleep(dur)
            log.append((w.now, j.id, "end"))
            return finish(out)
    else:
        def work(tok, x=None):
            got(tok, x)
            log.append((w.now, j.id, "start"))
            dur, out = step()
            w.advance(dur)
            log.append((w.now, j.id, "end"))
            return finish(out)
    run = [0]

    def got(tok, x):
        ctx.check(tok == j.id and x == ["x", j.id], f"job {j.id} got the arguments {tok}, {x}")

    def step():
        k = run[0]
        run[0] += 1
        return j.script[k] if k < len(j.script) else (0, None)

    def finish(out):
        if out == "cancel":
            return schedule.CancelJob
        if out == "cancel()":
            return schedule.CancelJob()
        if out == "cancelled":
            raise vbt.CancelledError
        if out == "interrupt":
            raise KeyboardInterrupt
        return out

    if j.until is not None and j.until < w.now:
        return
    if j.style == "chain":
        job = m.every(j.spec["interval"])
        job = getattr(job, j.spec["unit"] + "s") if not j.spec.get("day") else getattr(job, j.spec["day"])
        if j.spec.get("at") is not None:
            h, mi, s = j.spec["at"]
            u = "day" if j.spec.get("day") else j.spec["unit"]
            job = job.at({"day": f"{h:02d}:{mi:02d}:{s:02d}", "hour": f"{mi:02d}:{s:02d}", "minute": f":{s:02d}"}[u])
        if j.spec.get("to") is not None:
            job = job.to(j.spec["to"])
        job = job.tag(*j.tags)
    else:
        job = m.every(*j.args, to=j.spec.get("to"), tags=j.tagarg)
    if j.until is not None:
        job = job.until(j.until)
    ctx.check(job.tags == set(j.tags), f"tags {job.tags}, expected {j.tags}")
    j.job = job.do(work, j.id, x=["x", j.id])
    ctx.check(j.job is job and any(x is job for x in m.scheduler.jobs), "the job is not registered")


def compare(ctx, log, exp, what, order, **info):
    if not order:
        log, exp = sorted(log, key=str), sorted(exp, key=str)
    if log != exp:
        i = next((i for i, (a, b) in enumerate(zip(log, exp)) if a != b), min(len(log), len(exp)))
        ctx.fail(f"{what}: event {i} differs", got=[str(x) for x in log[max(0, i - 2):i + 3]], expected=[str(x) for x in exp[max(0, i - 2):i + 3]], n=(len(log), len(exp)), **info)


def descr(jobs, actions):
    return dict(jobs=[(j.id, str(j.args), str(j.spec), j.script, str(j.until), j.isasync, j.style) for j in jobs],
                actions=[(str(a[0]), a[1], getattr(a[2], "id", a[2])) for a in actions])


def model_jobs(jobs, start):
    out = []
    for j in jobs:
        j.k = 0
        j.next = next_due(start, j.spec)
        if j.until is None or j.until >= start:
            out.append(j)
    return out


@monitor(weight=4)
def foreground(ctx):
    """ScheduleManager.start: the exact sequence (time, job) of runs equals the model's."""
    rng = ctx.rng
    start, end, sleep, jobs, actions = draw_world(ctx, False)
    info = descr(jobs, actions)
    exp, stopped = simulate_fg(model_jobs(jobs, start), start, sleep, actions, end)
    log = []
    todo = list(actions)

    def on_sleep():
        while todo and todo[0][0] <= w.now:
            act_real(m, todo.pop(0), lambda j: register(ctx, w, m, j, log))
        if w.now > end:
            raise KeyboardInterrupt

    with World(start, on_sleep) as w:
        m = vbt.ScheduleManager()
        for j in jobs:
            register(ctx, w, m, j, log)
            if j.job is not None:
                ctx.check(j.job.next_run == next_due(start, j.spec), f"job {j.id} is due at {j.job.next_run}, expected {next_due(start, j.spec)}", start=str(start), **info)
        try:
            m.start(sleep=sleep)
        except (KeyboardInterrupt, asyncio.CancelledError) as e:
            ctx.fail(f"an interruption was not taken as the end of the schedule: {type(e)}", **info)
        ctx.check(w.now == stopped, f"the loop stopped at {w.now}, expected {stopped}", start=str(start), sleep=sleep, **info)
    compare(ctx, log, exp, "foreground", True, start=str(start), sleep=sleep, **info)
    ctx.seen("foreground runs", len(exp) // 2)
    ctx.seen("foreground schedules")
    if exp:
        ctx.nontrivial("fg", len(exp), str(exp[-1]))
        ctx.seen("control actions", len(actions) - len(todo))


@monitor(weight=4)
def background(ctx):
    """start_in_background: concurrent jobs, cancellations and stop on a virtual event loop."""
    start, end, sleep, jobs, actions = draw_world(ctx, True)
    info = descr(jobs, actions)
    exp = simulate_bg(model_jobs(jobs, start), start, sleep, actions, end)
    exp = [e for e in exp if e[0] <= end]
    stop = next((a[0] for a in actions if a[1] == "stop"), None)
    log = []

    async def main():
        ctx.check(not m.async_task_running and m.async_task is None, "a manager not started claims to be running")
        m.stop()
        m.start_in_background(sleep=sleep)
        ctx.check(m.async_task_running, "a manager started in the background is not running")
        for a in actions:
            d = (a[0] - w.now).total_seconds()
            if d > 0:
                await asyncio.sleep(d)
            if a[1] == "stop":
                m.stop()
                await asyncio.sleep(0)
                await asyncio.sleep(0)
                await asyncio.sleep(0)
                ctx.check(not m.async_task_running, "the manager is still running after stop")
                break
            act_real(m, a, lambda j: register(ctx, w, m, j, log))
        d = (end - w.now).total_seconds()
        if d > 0:
            await asyncio.sleep(d)
        n = len(log)
        running = m.async_task_running
        m.stop()
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        ctx.check(not m.async_task_running, "the manager is still running after stop")
        await asyncio.sleep(3 * sleep + 10)
        return n, running

    with World(start) as w:
        m = vbt.ScheduleManager()
        for j in jobs:
            register(ctx, w, m, j, log)
        n, running = w.run(main)
    alive = stop is None and not any(o == "cancelled" for j in jobs + [a[2] for a in actions if a[1] == "add"] for _, o in j.script)
    if alive:
        ctx.check(running, "the manager stopped by itself", **info)
    late = [e for e in log if e[0] > end]
    ctx.check(not any(e[2] == "start" for e in late), "a job started after the manager was stopped", late=[str(e) for e in late], **info)
    if not any(o == "cancelled" for j in jobs for _, o in j.script):
        ctx.check(not late, "a job went on after the manager was stopped", late=[str(e) for e in late], **info)
    edge = end  # what happens at the very end may fall on either side
    compare(ctx, [e for e in log if e[0] < edge], [e for e in exp if e[0] < edge], "background", False, start=str(start), sleep=sleep, **info)
    ctx.seen("background runs", len([e for e in exp if e[2] == "start"]))
    ctx.seen("background schedules")
    if any(j.isasync for j in jobs):
        ctx.seen("concurrent async jobs")
    if stop is not None:
        ctx.seen("background stops")
    if exp:
        ctx.nontrivial("bg", len(exp), str(exp[-1]))


@monitor(weight=1.5)
def run_all(ctx):
    """run_all / async_run_all: every job once in order, the delay in between, rescheduled or cancelled."""
    rng = ctx.rng
    mode = pick(rng, ["run_all", "async_run_all", "run_pending", "async_run_pending"])
    bg = mode.startswith("async")
    start, end, sleep, jobs, _ = draw_world(ctx, bg)
    for j in jobs:
        j.script = [(d, o if o not in ("interrupt", "cancelled") else None) for d, o in j.script]
    delay = int(rng.integers(0, 50))
    later = start + TD(seconds=int(rng.integers(0, 3 * 86400)))
    now = later
    exp, left = [], []
    alljobs = model_jobs(jobs, start)
    chosen = list(alljobs)
    if mode.endswith("pending"):
        delay = 0
        chosen = [j for j in alljobs if j.next <= now]
        if mode == "run_pending":
            chosen.sort(key=lambda j: j.next)
    conc = mode == "async_run_pending"
    for j in chosen:
        if j.over(now):
            now += TD(seconds=delay)
            continue
        exp.append((now, j.id, "start"))
        dur, out = j.step()
        e = now + TD(seconds=dur)
        exp.append((e, j.id, "end"))
        if not conc:
            now = e
        nx = next_due(e, j.spec)
        if not j.over(nx) and out not in ("cancel", "cancel()"):
            j.next = nx
            left.append(j)
        now += TD(seconds=delay)
    left = [j for j in alljobs if j in left or j not in chosen]
    log = []
    with World(start) as w:
        m = vbt.ScheduleManager()
        for j in jobs:
            register(ctx, w, m, j, log)
        w.advance((later - start).total_seconds())
        s = m.scheduler
        if mode == "run_all":
            s.run_all(delay)
        elif mode == "run_pending":
            s.run_pending()
        elif mode == "async_run_all":
            w.run(lambda: s.async_run_all(delay))
        else:
            w.run(lambda: s.async_run_pending())
        fin = w.now
    info = descr(jobs, [])
    compare(ctx, log, exp, mode, not conc, start=str(start), delay=delay, **info)
    if not conc:
        ctx.check(fin == now, f"{mode} ended at {fin}, expected {now}", **info)
    ctx.check([id(x) for x in s.jobs] == [id(j.job) for j in left], f"{mode} left {len(s.jobs)} jobs, expected {len(left)}", **info)
    for j in left:
        ctx.check(j.job.next_run == j.next, f"{mode}: job {j.id} is due at {j.job.next_run}, expected {j.next}", **info)
        ends = [e[0] for e in log if e[1] == j.id and e[2] == "end"]
        ctx.check(j.job.last_run == (ends[-1] if ends else None), f"last run {j.job.last_run}")
    if exp:
        ctx.nontrivial(mode, str(exp))
    ctx.seen("run-all schedules" if mode.endswith("all") else "run-pending schedules")


# ---------------------------------------------------------------- arguments

BAD_ARGS = [1.5, None, "hourz", "Monday", "", [1], "months", b"day"]


def kinds(a):
    out = []
    if isinstance(a, (int, TD)):
        out.append(0)
    if isinstance(a, str) and a in [u for x in UNITS for u in (x, x + "s")]:
        out.append(1)
    if isinstance(a, str) and a in DAYS:
        out.append(2)
    if isinstance(a, dtm.time) or isinstance(a, str) and ":" in a:
        out.append(3)
    return out[0] if out else None


@monitor(weight=3)
def arguments(ctx):
    """Argument sequences: accepted exactly when in order; the job equals the chained one of `schedule`."""
    rng = ctx.rng
    pool = [lambda: int(rng.integers(1, 5)), lambda: TD(seconds=int(rng.integers(1, 500))), lambda: pick(rng, UNITS) + pick(rng, ["", "s"]), lambda: pick(rng, DAYS),
            lambda: pick(rng, ["10:30", ":17", "23:59:59", "05:07", "25:00", "7:1"]), lambda: dtm.time(*draw_at(rng)), lambda: pick(rng, BAD_ARGS)]
    k = int(pick(rng, [0, 1, 2, 2, 3, 3, 4, 4, 5]))
    if rng.random() < 0.5:
        args = [f() for f in [pool[0], pool[2], pool[3], pick(rng, pool[4:6])] if rng.random() < 0.6]
    else:
        args = [pick(rng, pool)() for _ in range(k)]
    start = draw_start(rng)
    order = [kinds(a) for a in args]
    ok = all(o is not None for o in order) and all(a < b for a, b in zip(order, order[1:]))
    info = dict(args=[repr(a) for a in args])
    with World(start) as w:
        m = vbt.ScheduleManager()
        if not ok:
            ctx.raises(ValueError, m.every, *args, msg=f"every{tuple(args)}")
            ctx.check(not m.scheduler.jobs, "a rejected job was registered")
            ctx.seen("rejected argument orders")
            return
        d = dict(zip(order, args))
        if isinstance(d.get(0), TD):
            if len(args) > 1:
                return  # no meaning given by the documentation
            job = m.every(*args)
            secs = d[0].total_seconds()
            ctx.check(job.unit == "seconds" and job.interval == secs, f"every({d[0]!r}) made {job.interval} {job.unit}")
            ctx.check(job.do(print).next_run == start + d[0], "wrong due time")
            ctx.seen("timedelta intervals")
            return
        interval, unit, day, at = d.get(0, 1), d.get(1), d.get(2), d.get(3)
        if unit is None and day is None:
            unit = "seconds" if at is None else "days"

        def vanilla():
            j = schedule.Scheduler().every(interval)
            if unit is not None:
                j = getattr(j, unit)
            if day is not None:
                j = getattr(j, day)
            if at is not None:
                a = at
                if isinstance(a, dtm.time):
                    a = {"hours": f"{a.minute:02d}:{a.second:02d}", "minutes": f":{a.second:02d}"}.get(j.unit, f"{a.hour:02d}:{a.minute:02d}:{a.second:02d}")
                j = j.at(a)
            return j.do(print)

        try:
            ref = vanilla()
        except Exception as e:
            ctx.raises((type(e), schedule.ScheduleError, ValueError), lambda: m.every(*args).do(print), msg="the library rejects this")
            ctx.seen("combinations the library rejects")
            return
        to = interval + int(rng.integers(0, 3)) if rng.random() < 0.3 else None
        job = m.every(*args, to=to)
        ctx.check(isinstance(job, sch_mod.AsyncJob), f"{type(job)}")
        if to is not None:
            ref.latest = to
            ref._schedule_next_run()
        job.do(print)
    for f in ("interval", "unit", "start_day", "at_time", "latest", "next_run"):
        ctx.check(getattr(job, f) == getattr(ref, f), f"{f} is {getattr(job, f)}, the chained job has {getattr(ref, f)}", **info)
    ctx.nontrivial("args", str(info), str(start))
    ctx.seen("accepted argument orders")


# ---------------------------------------------------------------- updaters

class Feed(vbt.Data):
    @classmethod
    def download_symbol(cls, symbol, n=3, **kwargs):
        return pd.Series(np.arange(n, dtype=float) + 100 * cls.base(symbol), index=pd.date_range("2020-01-01", periods=n, freq="D"))

    @staticmethod
    def base(symbol):
        return ord(symbol[0])

    def update_symbol(self, symbol, fail=None, k=1, scale=1.0, **kwargs):
        if fail is not None and symbol == fail:
            raise ConnectionError("feed down")
        last = self.data[symbol].index[-1]
        ix = pd.date_range(last, periods=k + 1, freq="D")
        return pd.Series((np.arange(k + 1) + len(self.data[symbol])) * scale + 100 * self.base(symbol), index=ix)


@monitor(weight=2)
def updater(ctx):
    """DataUpdater exposes the data of its latest successful update, scheduled or not."""
    rng = ctx.rng
    syms = ["a", "b", "c"][:int(rng.integers(1, 4))]
    start = draw_start(rng)
    how = pick(rng, ["direct", "foreground", "background"])
    n = int(rng.integers(1, 7))
    fails = [pick(rng, [None, None, pick(rng, syms)]) for _ in range(n)]
    ks = [int(rng.integers(1, 4)) for _ in range(n)]
    scale = float(pick(rng, [1.0, 2.0]))
    data = Feed.download(syms if len(syms) > 1 or rng.random() < 0.5 else syms[0], n=3)
    model = data
    states = []
    for f, k in zip(fails, ks):
        if f is None:
            model = model.update(k=k, scale=scale)
        states.append(model)
    seen_at = []

    class Up(vbt.DataUpdater):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            self.i = 0

        def update(self, scale=None, limit=None):
            i = self.i
            self.i += 1
            seen_at.append((w.now, scale))
            err = None
            try:
                super().update(k=ks[i], fail=fails[i], scale=scale)
            except ConnectionError as e:
                err = e
            check(self, i, err)
            if limit is not None and self.i >= limit:
                raise vbt.CancelledError

    def check(u, i, err):
        ctx.check((err is not None) == (fails[i] is not None), f"update {i} raised {err}, the feed failed: {fails[i]}")
        for s in syms:
            ctx.check(u.data.data[s].equals(states[i].data[s]), f"data of {s} after update {i}", got=u.data.data[s], expected=states[i].data[s])
        ctx.check(u.config["data"] is u.data, "the configured data is not the current one")
        got, exp = u.data.get(), states[i].get()
        ctx.check(got.equals(exp), "data.get() after update", got=got, expected=exp)
        ctx.check(list(u.data.wrapper.index) == list(states[i].wrapper.index), "wrapper index after update")

    before = {s: data.data[s].copy() for s in syms}
    secs = int(rng.integers(1, 30))
    sleep = int(rng.integers(1, 6))
    mgr = vbt.ScheduleManager() if rng.random() < 0.5 else None
    with World(start) as w:
        u = Up(data, schedule_manager=mgr) if mgr is not None or rng.random() < 0.5 else Up(data)
        ctx.check(u.data is data and (mgr is None or u.schedule_manager is mgr) and isinstance(u.schedule_manager, vbt.ScheduleManager), "the updater does not hold what it was given")
        if how == "direct":
            for _ in range(n):
                u.update(scale=scale)
        elif how == "foreground":
            u.update_every(secs, "seconds", tags=["t"], start_kwargs=dict(sleep=sleep), scale=scale, limit=n)
            ctx.check([j.tags for j in u.schedule_manager.scheduler.jobs] == [{"t"}], "tags of the scheduled update")
        else:
            async def main():
                u.update_every(secs, to=secs, in_background=True, start_kwargs=dict(sleep=sleep), scale=scale, limit=n)
                ctx.check(u.schedule_manager.async_task_running, "not running in the background")
                await asyncio.sleep((n + 2) * (secs + sleep) + 5)
                ctx.check(not u.schedule_manager.async_task_running, "CancelledError did not stop the updates")
            w.run(main)
    ctx.check(u.i == n, f"{u.i} updates instead of {n}")
    if how != "direct":
        t, due, exp = start, start + TD(seconds=secs), []
        while len(exp) < n:
            if t >= due:
                exp.append(t)
                due = t + TD(seconds=secs)
            t += TD(seconds=sleep)
        ctx.check([x[0] for x in seen_at] == exp, "update times", got=[str(x[0]) for x in seen_at], expected=[str(x) for x in exp])
    ctx.check(all(x[1] == scale for x in seen_at), "keyword arguments of the updates")
    for s in syms:
        ctx.check(data.data[s].equals(before[s]), "the original data changed")
    ctx.nontrivial("upd", how, n, str(fails), str(ks))
    ctx.seen(f"{how} updates", n)
    ctx.seen("failed updates", sum(f is not None for f in fails))
