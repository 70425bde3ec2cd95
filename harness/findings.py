"""Known findings: genuine defects of the library which are recorded, not repaired.  Each probe shows that its finding is
still there.  A probe that fails but is not listed in known-findings.txt is a violation."""
import os
import re

import torch
from torch import nn

from core import VERIF
from realize import co


def x(n, c=1):
    g = torch.Generator().manual_seed(n)
    return torch.randn(1, c, n, generator=g, dtype=torch.float64)


def differs(a, b):
    return a is None or b is None or a.shape != b.shape or not torch.allclose(a, b)


def stalled_end_padding():
    net = co.Sequential(co.Conv1d(1, 1, 1, stride=2), co.Conv1d(1, 1, 3, padding=1)).double()
    c = x(6)
    net.forward_steps(c[:, :, :5])
    return differs(net.forward_steps(c[:, :, 5:], pad_end=True), net.forward(c)[:, :, 2:])


def group_norm():
    net = co.continual(nn.GroupNorm(1, 2).double()).eval()
    c = x(5, 2)
    return differs(net.forward_steps(c[:, :, :3]), net.forward(c)[:, :, :3])


def average_without_padding():
    net = co.AvgPool1d(3, stride=1, padding=1, count_include_pad=False).double()
    c = x(6)
    return differs(net.forward_steps(c, pad_end=True), net.forward(c))


def ceil_mode_in_time():
    net = co.AvgPool1d(2, stride=2, ceil_mode=True).double()
    c = x(5)
    return differs(net.forward_steps(c, pad_end=True), net.forward(c))


def padding_over_space():
    net = co.Sequential(co.Conv3d(1, 1, 3), co.forward_stepping(nn.ZeroPad3d((1, 1, 1, 1, 0, 0))))
    return net.delay != 2


PROBES = dict(
    C06=[("padding-over-space", padding_over_space,
          "Sequential(Conv3d(1, 1, 3), forward_stepping(nn.ZeroPad3d((1, 1, 1, 1, 0, 0)))) declares a delay of 1 instead of 2: the "
          "padding of the wrapped module, which is over space, is taken for one over time")],
    C04=[("stalled-end-padding", stalled_end_padding,
          "Sequential(Conv1d(1, 1, 1, stride=2), Conv1d(1, 1, 3, padding=1)): forward_steps of the 6th frame with pad_end=True "
          "gives None instead of the output which the end padding of the second convolution completes"),
         ("ceil-mode-in-time", ceil_mode_in_time,
          "AvgPool1d(2, stride=2, ceil_mode=True): forward_steps of 5 frames with pad_end=True lacks the third output of forward")],
    C02=[("average-without-padding", average_without_padding,
          "AvgPool1d(3, stride=1, padding=1, count_include_pad=False): steps divide padded windows by 3, forward by 2")],
    C23=[("group-norm-over-time", group_norm,
          "GroupNorm(1, 2) is converted although its statistics extend over time: steps differ from the frames of forward")],
)


def listed(prop):
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        return set(re.findall(r"^known: property=%s id=(\S+)" % prop, f.read(), re.M))


def probe(rep):
    known = listed(rep.prop)
    for ident, fails, what in PROBES.get(rep.prop, ()):
        try:
            failing = fails()
        except Exception as e:     # another failure than the known one
            rep.violation("probing %s raised %s: %s" % (ident, type(e).__name__, e), log=[], custom="findings")
            continue
        if failing and ident in known:
            rep.known(ident, what)
        elif failing:
            rep.violation("%s: %s" % (ident, what), log=[], custom="findings")


def replay(d):
    from core import Report
    rep = Report(d["property"])
    probe(rep)
    print("reproduced" if rep.violations else "not reproduced")
    return 1 if rep.violations else 0
