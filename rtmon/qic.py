"""One dummy cluster per worker process with the real vendor driver, its instrument coordinator component and coordinator."""
SLOTS = {"QCM": [1, 2], "QRM": [3, 4], "QCM_RF": [5, 6], "QRM_RF": [7, 8], "QRC": [9, 10], "QTM": [11, 12]}
_c = {}
KEEP = set()      # instruments of the racks: dev.close_all leaves them open

def rack(name="cluster0", slots=SLOTS):
    if name not in _c:
        from qblox_instruments import Cluster, ClusterType
        from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
        from quantify_scheduler.instrument_coordinator.components.qblox import ClusterComponent
        from qcodes.instrument import Instrument
        before = set(Instrument._all_instruments)
        cl = Cluster(name, dummy_cfg={str(s): getattr(ClusterType, "CLUSTER_" + t) for t, l in slots.items() for s in l})
        comp = ClusterComponent(cl)
        ic = InstrumentCoordinator("ic", add_default_generic_icc=True)
        ic.add_component(comp)
        _c[name] = (cl, comp, ic)
        KEEP.update(set(Instrument._all_instruments) - before)
    return _c[name]

def module(cl, slot): return getattr(cl, f"module{slot}")


def forget(cl, slots=SLOTS):
    """No dummy acquisition data in any module."""
    for s in (s for t, l in slots.items() if t in ("QRM", "QRM_RF", "QRC", "QTM") for s in l):
        for q in range(12): cl.delete_dummy_binned_acquisition_data(s, q)   # (all sequencers at once is ignored by the vendor's dummy)
        cl.delete_dummy_scope_acquisition_data(s, None)
