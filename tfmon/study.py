"""Instrumented model for toy studies: records every data generation, its model state, and injects scheduled failures."""
import numpy as np

from . import fits, ref


class Recorder:
    """Event log of one study. An attempt starts with every request for a toy data set."""

    def __init__(self):
        self.attempts = []      # dict(fault, state, data)
        self.schedule = []      # faults per attempt; missing entries mean none
        self.on_generate = None

    def new_attempt(self, model):
        k = len(self.attempts)
        a = dict(fault=self.schedule[k] if k < len(self.schedule) else None, state=state_of(model), data=None, adds=0)
        self.attempts.append(a)
        if self.on_generate is not None:
            self.on_generate()
        return a


def state_of(m):
    return {(n, p): (float(t.yield_param), np.array(t.nui_params, dtype=float)) for n, c in m.channels.items() for p, t in c.templates.items()}


def recording_class():
    from templatefitter.templates import MultiChannelTemplate

    class RecordingTemplate(MultiChannelTemplate):
        recorder = None

        def generate_toy_dataset(self, *a, **kw):
            if self.recorder is None:
                return super().generate_toy_dataset(*a, **kw)
            att = self.recorder.new_attempt(self)
            if att["fault"] == "generate":
                raise RuntimeError("injected: no data")
            out = super().generate_toy_dataset(*a, **kw)
            att["data"] = {n: np.array(h.bin_counts, dtype=float) for n, h in out.items()}
            return out

        def add_data(self, **kw):
            r = self.recorder
            if r is not None and r.attempts:
                r.attempts[-1]["adds"] += 1
                if r.attempts[-1]["fault"] == "add":
                    raise RuntimeError("injected: data refused")
            return super().add_data(**kw)

        def create_nll(self, *a, **kw):
            nll = super().create_nll(*a, **kw)
            r = self.recorder
            if r is None or not r.attempts:
                return nll
            fault = r.attempts[-1]["fault"]
            if fault == "create":
                raise RuntimeError("injected: no likelihood")
            if fault == "call":
                return FailingCost(nll)
            if fault == "nan":
                return NanCost(nll)
            return nll
    return RecordingTemplate


class FailingCost:
    """The model's likelihood, failing at the third evaluation."""

    def __init__(self, nll):
        self._nll, self._n = nll, 0

    def __getattr__(self, name):
        return getattr(self._nll, name)

    def __call__(self, *a, **kw):
        self._n += 1
        if self._n > 3:
            raise RuntimeError("injected: evaluation failed")
        return self._nll(*a, **kw)


class NanCost(FailingCost):
    """Never a number: the minimisation ends without success, without an exception of ours."""

    def __call__(self, *a, **kw):
        return float("nan")


FAULTS = ("generate", "add", "create", "call", "nan")


def simulate(schedule, n_exp, max_tries):
    """(indices of the attempts that yield results, completes?, number of attempts)"""
    k, good = 0, []
    for _ in range(n_exp):
        for t in range(max_tries):
            f = schedule[k] if k < len(schedule) else None
            k += 1
            if f is None:
                good.append(k - 1)
                break
        else:
            return good, False, k
    return good, True, k


def refit(s, rm, data, x0):
    """Independent fit of the yields to a recorded data set: (f, fmin, x, sigma of the yields)."""
    for c in s.channels:
        rm.channels[c["name"]].data = data[c["name"]]
    f, n0 = rm.fast_nll(), len(s.processes)
    free = np.arange(rm.npar) < n0
    fmin, xb = fits.reminimise(f, x0, fits.scales(rm, x0), free)

    def g(u):
        y = xb.copy()
        y[:n0] = u
        return f(y)
    sig = fits.sigmas(rm, np.where(free, np.maximum(xb, 1), xb), free)[:n0]
    H = ref.hessian(g, xb[:n0].copy(), 0.2 * sig)
    return f, fmin, xb, np.sqrt(np.diag(np.linalg.inv(H)))
