"""Configuration files for the code under test."""
import json, os

DR = 2.0 ** -10          # dyadic cell size: positions in 1/U of a cell are exact doubles
DT = 2.0 ** -40          # dyadic time step, below the Courant limit of DR

SPECIES = [dict(name="electrons", charge=-1, mass=1, density=1e12, temperature=1),
           dict(name="ions", charge=1, mass=1836, density=1e12, temperature=1)]


def make(path, nr=8, nz=8, rd=2, zd=2, dr=DR, dz=DR, dt=DT, steps=4, end=None, macro=0,
         species=None, beams=None, probes=None, pml=(0, 0, 0), sigma=(1e-5, 1.5), root=None,
         ratio=1, external=None, extra=None, size=None):
    species = species if species is not None else SPECIES
    c = {
        "macro_amount": macro, "beam_plasma_macro_size_ratio": ratio, "log_file": "/dev/null", "comment": "vp",
        "geometry": {"size": {"radius": size[0] if size else nr * dr, "longitude": size[1] if size else nz * dz},
                     "grid": {"radius": nr, "longitude": nz}, "domains_amount": {"radius": rd, "longitude": zd},
                     "pml": {"left_wall": pml[0], "right_wall": pml[1], "outer_wall": pml[2],
                             "sigma_1": sigma[0], "sigma_2": sigma[1]}},
        "time": {"start": 0, "end": dt * steps if end is None else end, "step": dt},
        "external_fields": external or {"electric": {"formfactor": "none", "params": [0, 0, 0]},
                                        "magnetic": {"formfactor": "none", "params": [0, 0, 0]}},
        "particles": species, "beams": beams or [],
        "data": {"data_root": root or os.path.dirname(os.path.abspath(path)),
                 "compression": {"use": False, "level": 1}, "probes": probes or []},
        "plot": {},
    }
    c.update(extra or {})
    with open(path, "w") as f:
        json.dump(c, f)
    return path


def beam(name="b", amount=2, distance=0.01, length=0.005, radius=0.002, velocity=2e8, start=0, charge=-1, mass=1, density=1e12):
    return dict(name=name, charge=charge, mass=mass, velocity=velocity, start_time=start,
                bunch=dict(amount=amount, distance=distance, length=length, radius=radius, density=density,
                           profile=dict(radial="rectangle", longitudinal="rectangle")))
