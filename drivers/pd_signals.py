"""drives the class Signal: construct, filter, read the attributes"""
import numpy as np
from PyDynamic.signals import Signal


def make(time, values, **kw):
    s = Signal(time, values, **kw)
    return s.time, s.values, s.uncertainty, s.Ts, s.Fs


def apply_filter(time, values, uncertainty, b, kw):
    s = Signal(time, values, uncertainty=uncertainty)
    s.apply_filter(b, **kw)
    return s.time, s.values, s.uncertainty


def twice(time, values, uncertainty, b, c, kw):
    s = Signal(time, values, uncertainty=uncertainty)
    s.apply_filter(b, **kw)
    s.apply_filter(c, **kw)
    return s.values, s.uncertainty


def make_equidistant(t0, h, values):
    return make(t0 + h * np.arange(len(values)), values)
