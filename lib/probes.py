"""Probe definitions: configuration entry + the record the specification uses."""
COMP = ["E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z"]


def rec(comp, r0, z0, r1, z1, sched=1):
    c = COMP[comp]
    return (dict(component=c, shape="rec", schedule=sched, start=dict(r=r0, z=z0), end=dict(r=r1, z=z1)),
            dict(shape=0, r0=r0, z0=z0, r1=r1, z1=z1, sched=sched, comp=comp, path="%s/rec/%d-%d_%d-%d" % (c, r0, r1, z0, z1)))


def col(comp, z, sched=1):
    c = COMP[comp]
    return (dict(component=c, shape="col", schedule=sched, z=z),
            dict(shape=1, r0=0, z0=0, r1=0, z1=z, sched=sched, comp=comp, path="%s/col/%d" % (c, z)))


def row(comp, r, sched=1):
    c = COMP[comp]
    return (dict(component=c, shape="row", schedule=sched, r=r),
            dict(shape=2, r0=0, z0=0, r1=r, z1=0, sched=sched, comp=comp, path="%s/row/%d" % (c, r)))


def dot(comp, r, z, sched=1):
    c = COMP[comp]
    return (dict(component=c, shape="dot", schedule=sched, r=r, z=z),
            dict(shape=3, r0=0, z0=0, r1=r, z1=z, sched=sched, comp=comp, path="%s/dot/%d_%d" % (c, r, z)))
