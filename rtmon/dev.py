"""Quantum devices with known, distinct parameters."""
from __future__ import annotations

def close_all():
    from qcodes.instrument import Instrument
    from rtmon import qic
    for n in list(Instrument._all_instruments):
        if n not in qic.KEEP:
            try: Instrument._all_instruments[n].close()
            except KeyError: pass

def ns(x): return float(f"{x}e-9")

def transmon(name, r, **fix):
    """A BasicTransmonElement with random distinct parameters; returns (element, params in ns / Hz)."""
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    p = dict(rxy_dur=4 * r.randint(3, 30), amp180=round(r.uniform(0.1, 0.6), 4), motzoi=round(r.uniform(-0.3, 0.3), 4),
             f01=round(r.uniform(4e9, 6e9)), f12=round(r.uniform(3e9, 4e9)), ro=round(r.uniform(6.5e9, 7.9e9)),
             ro_amp=round(r.uniform(0.05, 0.5), 4), ro_dur=4 * r.randint(20, 90), acq_delay=4 * r.randint(0, 50), integ=4 * r.randint(80, 200),
             reset=4 * r.randint(100, 500))
    p.update(fix)
    q = BasicTransmonElement(name)
    q.rxy.duration(ns(p["rxy_dur"])); q.rxy.amp180(p["amp180"]); q.rxy.motzoi(p["motzoi"])
    q.clock_freqs.f01(p["f01"]); q.clock_freqs.f12(p["f12"]); q.clock_freqs.readout(p["ro"])
    q.measure.pulse_amp(p["ro_amp"]); q.measure.pulse_duration(ns(p["ro_dur"])); q.measure.acq_delay(ns(p["acq_delay"])); q.measure.integration_time(ns(p["integ"]))
    q.reset.duration(ns(p["reset"]))
    return q, p
