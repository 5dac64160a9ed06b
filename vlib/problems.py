"""Registry of the package's test problems with independent scalar formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen

from mfpml.problems import mf_functions as mff
from mfpml.problems import sf_cons_functions as scf
from mfpml.problems import sf_functions as sff

sin, cos, exp, log, sqrt, pi = math.sin, math.cos, math.exp, math.log, math.sqrt, math.pi


def forrester(x):
    return (6 * x[0] - 2) ** 2 * sin(12 * x[0] - 4)


def branin(x):
    return ((x[1] - 5.1 / (4 * pi ** 2) * x[0] ** 2 + 5 / pi * x[0] - 6) ** 2
            + 10 * (1 - 1 / (8 * pi)) * cos(x[0]) + 10)


def goldprice(x):
    a, b = x
    return ((1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b))
            * (30 + (2 * a - 3 * b) ** 2
               * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b)))


def sixhump(x):
    a, b = x
    return (4 - 2.1 * a ** 2 + a ** 4 / 3) * a ** 2 + a * b + (4 * b ** 2 - 4) * b ** 2


def sasena(x):
    a, b = x
    return (2 + 0.01 * (b - a * a) ** 2 + (1 - a) ** 2 + 2 * (2 - b) ** 2
            + 7 * sin(0.5 * a) * sin(0.7 * a * b))


H3A = [[3, 10, 30], [.1, 10, 35], [3, 10, 30], [.1, 10, 35]]
H3P = [[.3689, .1170, .2673], [.4699, .4387, .7470], [.1091, .8732, .5547],
       [.03815, .5743, .8828]]
H6A = [[10, 3, 17, 3.5, 1.7, 8], [.05, 10, 17, .1, 8, 14], [3, 3.5, 1.7, 10, 17, 8],
       [17, 8, .05, 10, .1, 14]]
H6P = [[.1312, .1696, .5569, .0124, .8283, .5886], [.2329, .4135, .8307, .3736, .1004, .9991],
       [.2348, .1451, .3522, .2883, .3047, .6650], [.4047, .8828, .8732, .5743, .1091, .0381]]


def _hart(x, A, P, c):
    return sum(c[i] * exp(-sum(A[i][j] * (x[j] - P[i][j]) ** 2 for j in range(len(x))))
               for i in range(4))


def hartman3(x):
    return -_hart(x, H3A, H3P, [1, 1.2, 3, 3.2])


def hartman3_lf(x):
    a, b, c = x
    return (0.585 - 0.324 * a - 0.379 * b - 0.431 * c - 0.208 * a * b + 0.326 * a * c
            + 0.193 * b * c + 0.225 * a * a + 0.263 * b * b + 0.274 * c * c)


def hartman6(x):
    return -log(_hart(x, H6A, H6P, [1, 1.2, 3, 3.2]))


def hartman6_lf(x):
    l = [.75, 1, .8, 1.3, .7, 1.1]
    return -log(_hart([l[j] * x[j] for j in range(6)], H6A, H6P, [1.1, .8, 2.5, 3]))


def thevenot(x, m=5.0, beta=15):
    p = q = 1.0
    for v in x:
        p *= v * v
        q *= cos(v) ** 2
    return exp(-sum((v / beta) ** (2 * m) for v in x)) - 2 * exp(-p) * q


def ackley(x, a=20, b=.2, c=2 * pi):
    d = len(x)
    return (-a * exp(-b * sqrt(sum(v * v for v in x) / d))
            - exp(sum(cos(c * v) for v in x) / d) + a + math.e)


def ackley2(x):
    return -200 * exp(-.2 * math.hypot(*x))


def branin_c(x):
    return branin([15 * x[0] - 5, 15 * x[1]]) + 5 * x[0]


def cons1(x):
    return 0.2 - x[0] * x[1]


def cons2(x):
    a, b = 2 * x[0] - 1, 2 * x[1] - 1
    return 6 - (sixhump([a, b]) + 3 * sin(6 * (1 - a)) + 3 * sin(6 * (1 - b)))


def disc_lf(x):
    y = 0.5 * forrester(x) + 10 * (x[0] - .5) - 5
    return y if x[0] <= 0.5 else 3 + y


def disc_hf(x):
    return (0 if x[0] <= .5 else 4) + 2 * disc_lf(x) - 20 * x[0] + 20


def bohachevsky(x):
    return x[0] ** 2 + 2 * x[1] ** 2 - .3 * cos(3 * pi * x[0]) - .4 * cos(4 * pi * x[1]) + .7


def booth(x):
    return (x[0] + 2 * x[1] - 7) ** 2 + (2 * x[0] + x[1] - 5) ** 2


def borehole(x, a, b):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x
    g = log(r / rw)
    return a * Tu * (Hu - Hl) / (g * (b + 2 * L * Tu / (g * rw ** 2 * Kw) + Tu / Tl))


def currin(x):
    f = 1.0 if x[1] <= 0 else 1 - exp(-1 / (2 * x[1]))
    a = x[0]
    return f * (2300 * a ** 3 + 1900 * a ** 2 + 2092 * a + 60) / \
        (100 * a ** 3 + 500 * a ** 2 + 4 * a + 20)


def currin_lf(x):
    h = .05
    lo = max(0.0, x[1] - h)
    return .25 * (currin([x[0] + h, x[1] + h]) + currin([x[0] + h, lo])
                  + currin([x[0] - h, x[1] + h]) + currin([x[0] - h, lo]))


def himmelblau(x):
    return (x[0] ** 2 + x[1] - 11) ** 2 + (x[0] + x[1] ** 2 - 7) ** 2


def park_a(x):
    a, b, c, d = x
    q = (b + c * c) * d
    # a/2*(sqrt(1+q/a^2)-1) without division by a
    t = 0.0 if q == 0 else q / (2 * (sqrt(a * a + q) + a))
    return t + (a + 3 * d) * exp(1 + sin(c))


def park_b(x):
    return 2 / 3 * exp(x[0] + x[1]) - x[3] * sin(x[2]) + x[2]


class Spec:
    def __init__(self, cls, dom, f=None, hf=None, lf=None, cons=None, cost=None,
                 record=False, free=False):
        self.cls, self.name = cls, cls.__name__
        self.dom, self.f, self.hf, self.lf = dom, f, hf, lf
        self.cons, self.cost, self.record, self.free = cons, cost, record, free

    @property
    def fids(self):
        return [k for k in ("f", "hf", "lf") if getattr(self, k)]

    def domain(self, d):
        return [list(self.dom[0])] * d if self.free else [list(b) for b in self.dom]


U1, U2, U3, U6, U4 = [[0, 1]], [[0, 1]] * 2, [[0, 1]] * 3, [[0, 1]] * 6, [[0, 1]] * 4
SPECS = [
    Spec(sff.Forrester, U1, f=forrester, record=True),
    Spec(sff.Branin, [[-5, 10], [0, 15]], f=branin, record=True),
    Spec(sff.GoldPrice, [[-2, 2]] * 2, f=goldprice, record=True),
    Spec(sff.Sixhump, [[-3, 3], [-2, 2]], f=sixhump, record=True),
    Spec(sff.Sasena, [[0, 5]] * 2, f=sasena, record=True),
    Spec(sff.Hartman3, U3, f=hartman3, record=True),
    Spec(sff.Hartman6, U6, f=hartman6, record=True),
    Spec(sff.Thevenot, [[-2 * pi, 2 * pi]], f=thevenot, record=True, free=True),
    Spec(sff.Ackley, [[-32, 32]], f=ackley, record=True, free=True),
    Spec(sff.AckleyN2, [[-32, 32]] * 2, f=ackley2, record=True),
    Spec(scf.Branin_1, U2, f=branin_c, cons=[cons1], record=True),
    Spec(scf.Branin_2, U2, f=branin_c, cons=[cons2], record=True),
    Spec(mff.Forrester_1a, U1, hf=forrester, lf=lambda x: forrester(x) - 5, cost=[1., .2], record=True),
    Spec(mff.Forrester_1b, U1, hf=forrester,
         lf=lambda x: .5 * forrester(x) + 10 * (x[0] - .5) - 5, cost=[1., .2], record=True),
    Spec(mff.Forrester_1c, U1, hf=forrester, lf=lambda x: forrester([x[0] + .2]), cost=[1., .2], record=True),
    Spec(mff.mf_Hartman3, U3, hf=hartman3, lf=hartman3_lf, cost=[1., .2], record=True),
    Spec(mff.mf_Sixhump, [[-2, 2]] * 2, hf=sixhump,
         lf=lambda x: sixhump([.7 * x[0], .7 * x[1]]) - x[0] * x[1] - 15, cost=[1., .2], record=True),
    Spec(mff.mf_Hartman6, U6, hf=hartman6, lf=hartman6_lf, cost=[1., .1], record=True),
    Spec(mff.mf_Discontinuous, U1, hf=disc_hf, lf=disc_lf),
    Spec(mff.ContinuousNonlinearCorrelation1D, U1,
         hf=lambda x: sin(8 * pi * x[0]) ** 2 * (x[0] - sqrt(2)), lf=lambda x: sin(8 * pi * x[0])),
    Spec(mff.PhaseShiftedOscillations, U1,
         hf=lambda x: x[0] ** 2 + sin(8 * pi * x[0] + pi / 10) ** 2, lf=lambda x: sin(8 * pi * x[0])),
    Spec(mff.mf_Bohachevsky, [[-5, 5]] * 2, hf=bohachevsky,
         lf=lambda x: bohachevsky([.7 * x[0], x[1]]) + x[0] * x[1] - 12, record=True),
    Spec(mff.mf_Booth, [[-10, 10]] * 2, hf=booth,
         lf=lambda x: booth([.4 * x[0], x[1]]) + 1.7 * x[0] * x[1] - x[0] + 2 * x[1], record=True),
    Spec(mff.mf_Borehole, [[.05, .15], [100, 50000], [63070, 115600], [990, 1110], [63.1, 116],
                           [700, 820], [1120, 1680], [9855, 12045]],
         hf=lambda x: borehole(x, 2 * pi, 1), lf=lambda x: borehole(x, 5, 1.5)),
    Spec(mff.mf_CurrinExp, U2, hf=currin, lf=currin_lf),
    Spec(mff.mf_Himmelblau, [[-4, 4]] * 2, hf=himmelblau,
         lf=lambda x: himmelblau([.5 * x[0], .8 * x[1]]) + x[1] ** 3 - (x[0] + 1) ** 2),
    Spec(mff.mf_Park91A, U4, hf=park_a,
         lf=lambda x: (1 + sin(x[0]) / 10) * park_a(x) - 2 * x[0] + x[1] ** 2 + x[2] ** 2 + .5),
    Spec(mff.mf_Park91B, U4, hf=park_b, lf=lambda x: 1.2 * park_b(x) - 1),
]
BY_NAME = {s.name: s for s in SPECS}


@st.composite
def pick(draw, where=None, d_max=6):
    """{"name", "d", "pars"} of one problem instance."""
    spec = draw(st.sampled_from([s for s in SPECS if where is None or where(s)]))
    if draw(gen.rare(8)):                   # many dimensions
        d_max = max(d_max, draw(st.sampled_from([12, 24])))
    case = {"name": spec.name, "d": draw(st.integers(1, d_max)) if spec.free else len(spec.dom),
            "pars": {}}
    if draw(st.booleans()):
        if spec.name == "Ackley":
            case["pars"] = {"a": draw(st.sampled_from([1.0, 10, 20.0, 35.5])),
                            "b": draw(st.sampled_from([.05, .2, 1.0])),
                            "c": draw(st.sampled_from([1.0, pi, 2 * pi, 5.5]))}
        elif spec.name == "Thevenot":
            case["pars"] = {"m": draw(st.sampled_from([1.0, 2.0, 5.0, 3.0])),
                            "beta": draw(st.sampled_from([5, 10.0, 15, 30.0]))}
    return case


def build(case):
    spec = BY_NAME[case["name"]]
    if spec.free:
        return spec.cls(num_dim=case["d"], **case["pars"])
    return spec.cls()


def coords():
    """One unit coordinate: corners, simple fractions or anything between."""
    return st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.integers(0, 96).map(lambda i: i / 96),
                     st.floats(0, 1, allow_nan=False, width=64))


def unit_points(d, n_min=1, n_max=8):
    return st.lists(st.lists(coords(), min_size=d, max_size=d), min_size=n_min, max_size=n_max)


def to_domain(u, dom):
    dom = np.asarray(dom, float)
    u = np.asarray(u, float)
    x = dom[:, 0] + u * (dom[:, 1] - dom[:, 0])
    return np.clip(x, dom[:, 0], dom[:, 1])
