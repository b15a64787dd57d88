"""Generator functions: the body runs as a coroutine of the interpreter, on
concrete control flow only (a yield under an undecided condition, or a resume
from a summarised loop, makes the generator opaque)."""
import threading

from values import NONE, opq

threading.stack_size(128 * 1024 * 1024)


class Stop(BaseException):
    pass


class Gen(object):
    """a generator object"""

    def __init__(self, I, func, env, st, Frame, State, Scope):
        self.I, self.func = I, func
        self.path = st.path
        self.facts = st.facts
        self.frame = Frame(func, I)
        self.frame.gen = self
        self.st = State(Scope(env, func.env), dict(st.heap), st.facts, st.path)
        self.thread = None
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.done = self.broken = False
        self.error = None
        self.out = None
        self.heap = None
        self.nret = 0

    def run(self):
        self.go.acquire()
        try:
            r = self.I.exec_block(self.func.node.body, self.st, self.frame)
            if r is not None:
                self.heap = r.heap
            elif self.frame.returns:
                rr = self.frame.returns
                if len(rr) == 1 and len(rr[0][0]) <= len(self.path):
                    self.heap = rr[0][2]
                else:
                    self.broken = True
            else:
                self.error = "path"
            if self.frame.returns and r is not None:
                self.broken = True
        except Stop:
            self.broken = True
        except BaseException as ex:
            self.error = ex
        self.done = True
        self.back.release()

    def yielded(self, v, st):
        """called in the generator's thread"""
        I = self.I
        if I.quiet or len(st.path) > len(self.path) or self.nret != len(self.frame.returns):
            raise Stop()
        self.out, self.heap = v, st.heap
        self.back.release()
        self.go.acquire()
        if self.broken:
            raise Stop()
        st.heap = self.heap
        return NONE

    def next(self, st, fr):
        """(status, value): 'value', 'end' or 'opaque'"""
        I = self.I
        if self.broken or I.quiet or st.path != self.path:
            self.broken = True
            return "opaque", opq("generator", self.func.name)
        if self.done:
            return "end", None
        nr = len(self.frame.raises)
        keep = I.curfunc, I.depth
        I.curfunc, I.depth = I.curfunc + [self.func], I.depth + 1
        self.heap = dict(st.heap)
        if self.thread is None:
            self.st.heap = self.heap
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()
        self.go.release()
        self.back.acquire()
        I.curfunc, I.depth = keep
        fr.raises.extend(self.frame.raises[nr:])
        if self.error is not None:
            if isinstance(self.error, BaseException):
                raise self.error
            return "raise", None
        if self.broken:
            return "opaque", opq("generator", self.func.name)
        if self.heap is not None:
            st.heap = self.heap
        if self.done:
            return "end", None
        return "value", self.out

    def drain(self, st, fr, limit=130):
        """all values, or None"""
        out = []
        while len(out) < limit:
            k, v = self.next(st, fr)
            if k == "value":
                out.append(v)
            elif k == "end":
                return out
            else:
                self.broken = True
                return None
        self.broken = True
        return None
