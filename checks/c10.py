import probes as P
import c09
from c09 import Sim


def cases(R, s, c):
    out = [([], None, "")]
    ops = list(range(1, s.ops + 1))
    for k in ops:
        out.append(([], None, "%d" % k))
        out.append(([], None, "%d+" % k))
    # together with pauses and stops: operations of the reopened file
    for _ in range(600 if c.thorough else 80):
        k, t = R.choice(ops), R.randint(1, s.ticks)
        sig = R.choice([[(t, 10), (-1, 12)], [(t, 10), (-1, 12), (R.randint(1, s.ticks), 10), (-1, 12)], [(t, 15)], [(t, 10), (-1, 15)], [(t, R.choice(c09.HARD))]])
        out.append((sig, None, "%d%s" % (k + R.randint(0, 2), R.choice(["", "+"]))))
    return out


def run(c):
    c09.design(c)
    R = c.rng
    for a in (("2x2", (8, 8, 2, 2), [P.dot(0, 1, 1, 1), P.rec(2, 1, 1, 5, 6, 1), P.col(4, 3, 2), P.row(6, 2, 3)], 5, 64, 1),
              ("1x1", (6, 6, 1, 1), [P.dot(2, 2, 2, 1), P.dot(3, 1, 2, 3)], 7, 16, 1),
              ("1x4", (8, 8, 1, 4), [P.row(0, 4, 1), P.rec(4, 0, 0, 8, 8, 2)], 4, 32, 3)):
        s = Sim(c, *a)
        s.play(cases(R, s, c), "failing operations of the data file (%s)" % a[0])
