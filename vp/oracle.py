"""Decoding a run's log into processes, images and threads."""
from .proto import *


class Image:
    """One program image of one process: from its first event to exec or exit."""

    def __init__(self, pid):
        self.pid = pid
        self.ev = []
        self.is_dump = False

    def cb(self, name, enter=True):
        ty = T.CB_ENTER if enter else T.CB_LEAVE
        code = getattr(CB, name)
        return [e for e in self.ev if e.type == ty and e.code == code]

    def main(self):
        return next((e for e in self.ev if e.type == T.MAIN and e.code == 0), None)


def images(r):
    """Images in order of appearance.  An image of a process ends when an
    exec in it succeeds: the next event of that pid that can only come from
    a fresh image (init_library, start_main_init or the dump) starts another."""
    cur = {}
    out = []
    for e in r.log:
        im = cur.get(e.pid)
        fresh = False
        if im is None:
            fresh = True
        elif e.type == T.CB_ENTER and e.code in (CB.init_library, CB.start_main_init):
            # a second one within an image that has begun to exec
            execd = any(x.type == T.OP and x.code == OP.EXEC for x in im.ev)
            began = any(x.type == T.CB_ENTER and x.code == CB.fini_process or
                        x.type == T.OP and x.code == OP.EXEC for x in im.ev)
            seen = any(x.type == T.CB_ENTER and x.code == e.code for x in im.ev)
            if execd and began and not (im.is_dump):
                fresh = True
        elif e.type == T.DUMP and not im.is_dump and any(x.type == T.MAIN for x in im.ev):
            fresh = True
        if fresh and im is not None and im.is_dump and not im.has_main():
            fresh = False
        if fresh:
            im = Image(e.pid)
            cur[e.pid] = im
            out.append(im)
        im.ev.append(e)
        if e.type == T.DUMP:
            im.is_dump = True
    return out


Image.has_main = lambda self: any(x.type in (T.MAIN, T.DUMP) for x in self.ev)


def split_exec(events):
    """Split one pid's events into images at points where a fresh image starts."""
    out = [[]]
    started = False
    for e in events:
        if (e.type == T.CB_ENTER and e.code in (CB.init_library, CB.start_main_init)) or e.type == T.DUMP:
            # an exec under way in some thread of the current image
            pend = set()
            for x in out[-1]:
                if x.code == OP.EXEC and x.type == T.OP:
                    pend.add(x.kt)
                elif x.code == OP.EXEC and x.type == T.RES:
                    pend.discard(x.kt)
            if pend:
                out.append([])
        out[-1].append(e)
    return [x for x in out if x]


def by_pid(r):
    d = {}
    for e in r.log:
        d.setdefault(e.pid, []).append(e)
    return d


def fmt(e):
    return repr(e)


def cbname(e):
    return CB.name(e.code)


class Proc:
    """One image of one process, indexed by thread."""

    def __init__(self, events):
        self.ev = events
        self.kt = {}
        for e in events:
            self.kt.setdefault(e.kt, []).append(e)

    def cb(self, name, ty=None):
        code = getattr(CB, name)
        ty = T.CB_ENTER if ty is None else ty
        return [e for e in self.ev if e.type == ty and e.code == code]

    def starts(self):
        """arg -> T_START entries."""
        d = {}
        for e in self.ev:
            if e.type == T.START:
                d.setdefault(e.a[0], []).append(e)
        return d

    def creates(self):
        """List of (OP entry, RES entry or None, events of the creator in between)."""
        out = []
        for kt, evs in self.kt.items():
            cur = None
            mid = []
            for e in evs:
                if e.type == T.OP and e.code == OP.CREATE:
                    cur, mid = e, []
                elif e.type == T.RES and e.code == OP.CREATE and cur is not None:
                    out.append((cur, e, mid))
                    cur = None
                elif cur is not None:
                    mid.append(e)
            if cur is not None:
                out.append((cur, None, mid))
        return out


def cb_seq(events):
    return [(CB.name(e.code), "enter" if e.type == T.CB_ENTER else "leave") for e in events
            if e.type in (T.CB_ENTER, T.CB_LEAVE)]


def thread_calls(evs, name):
    """(enter, leave or None) pairs of one callback in one thread's events."""
    code = getattr(CB, name)
    out = []
    for e in evs:
        if e.code != code:
            continue
        if e.type == T.CB_ENTER:
            out.append([e, None])
        elif e.type == T.CB_LEAVE and out:
            out[-1][1] = e
    return out


def check_threads(pr, ctx, main_kt, by_arg=None, need_fini=True):
    """The lifecycle of every thread of one process whose start was reached."""
    n = 0
    for kt, evs in pr.kt.items():
        if kt == main_kt:
            continue
        ini = thread_calls(evs, "init_thread")
        fin = thread_calls(evs, "fini_thread")
        st = [e for e in evs if e.type == T.START]
        if not ini and not st and not fin:
            continue
        if not st:
            ctx.expect(len(ini) <= 1, "init_thread called %d times in one thread" % len(ini))
            continue
        n += 1
        s = st[0]
        ctx.expect(len(st) == 1, "start routine entered %d times" % len(st))
        if not ctx.expect(len(ini) == 1, "init_thread called %d times in one thread" % len(ini)):
            continue
        ctx.expect(ini[0][1] is not None and ini[0][1].i < s.i,
                   "start routine entered before init_thread had finished")
        ctx.expect(ini[0][0].i == evs[0].i, "init_thread is not the first event of its thread")
        if need_fini and not ctx.expect(len(fin) == 1, "fini_thread called %d times in one thread" % len(fin)):
            continue
        ctx.expect(len(fin) <= 1, "fini_thread called %d times in one thread" % len(fin))
        if fin:
            ctx.expect(fin[0][1] is not None, "fini_thread did not finish")
    return n
