"""W01: sampled waveforms vs. independent formulas."""
import numpy as np, warnings
from rtmon.core import rng_for, Violation
from rtmon import wfref

LEVEL = "exploration"
RULE = ("A case is one waveform function, pulse operation or waveform helper with random parameters, sampled and compared sample by sample with "
        "an independent formula; non-trivial when the reference has a non-zero sample; distinct by all parameters.")
ASSUMPTIONS = ["parameter ranges are those documented as valid", "floating point agreement to 1e-9 relative"]
MINIMUM = {"op": 500, "direct": 500, "helper": 500, "linear": 200, "samples_compared": 20000}
CHUNK = 4

def jobs(tier, seed):
    n = 96 if tier == "quick" else 1600
    return [dict(i=i, seed=seed) for i in range(n)]

def close(a, b, tol=1e-9):
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))

def custom_wf(t, amp, slope=2.0, unused=None):
    return amp * np.cos(slope * 1e7 * np.asarray(t))

def snap(x):
    return np.array(x, copy=True)

def run_job(job, mon):
    from quantify_scheduler import waveforms as W, math as M
    from quantify_scheduler.helpers import waveforms as H
    import quantify_scheduler.operations.pulse_library as PL
    r = rng_for("W01", job["seed"], job["i"])
    # ---- operations sampled through the generic helper
    for kind in wfref.PULSE_KINDS:
        for _ in range(2):
            rate = r.choice([1e9, 1e9, 1e9, 5e8, 2e9, 2.4e9, 1.8e9])
            dur = r.choice([r.randint(7, 120), r.randint(7, 120), r.randint(100, 3000)])
            if rate != 1e9 and kind in ("SuddenNetZeroPulse",): rate = r.choice([1e9, 2e9])
            if rate == 5e8: dur = max(16, dur - dur % 2)
            kw = wfref.random_pulse(r, kind, dur)
            if kind == "SuddenNetZeroPulse" and rate == 2e9: pass
            ckw = dict(kw)
            if kind == "NumericalPulse" and r.random() < 0.5:
                ckw["samples"] = np.array(kw["samples"]); ckw["t_samples"] = np.array(kw["t_samples"])
            clock = "q0.01"
            op = getattr(PL, kind)(port="p", clock=clock, t0=r.choice([0, 1e-8]), **ckw)
            pi = op.data["pulse_info"][0]
            before = repr(pi)
            got = H.get_waveform(pi, rate)
            ref = wfref.sample_pulse_spec(kind, kw, rate)
            if kind == "StaircasePulse":
                # plateau edges at sample times are decided by rounding: exclude those samples
                amb = wfref.staircase_ambiguous(np.arange(len(ref)) / rate, kw["num_steps"], kw["duration"])
                if np.shape(got) != np.shape(ref): raise Violation("sample-count", f"{kind} {kw} rate {rate}: {np.shape(got)} vs {np.shape(ref)}")
                # at an ambiguous edge the value must still be one of the two plateaus
                lo = wfref.staircase(np.arange(len(ref)) / rate - 1e-13, kw["start_amp"], kw["final_amp"], kw["num_steps"], kw["duration"])
                k = np.round((np.arange(len(ref)) / rate) * kw["num_steps"] / kw["duration"])
                step = (kw["final_amp"] - kw["start_amp"]) / (kw["num_steps"] - 1)
                below = kw["start_amp"] + np.clip(k - 1, 0, kw["num_steps"] - 1) * step
                ref = np.where(amb & (np.abs(got - below) < 1e-9), got, ref)
            mon.case((kind, rate, repr(kw)), np.any(np.abs(ref) > 1e-6)); mon.count("op"); mon.count("samples_compared", len(ref))
            if np.shape(got) != np.shape(ref): raise Violation("sample-count", f"{kind} {kw} rate {rate}: got {len(got)} samples, duration has {len(ref)}")
            if not close(got, ref, 1e-7 if kind in ("SkewedHermitePulse", "ChirpPulse") else 1e-9):
                i = int(np.argmax(np.abs(got - ref))); raise Violation("waveform", f"{kind} {kw} rate {rate} sample {i}: {got[i]} expected {ref[i]}")
            if repr(pi) != before: raise Violation("mutated", f"{kind} pulse_info changed by sampling")
            if kind == "NumericalPulse" :
                for ts, s in zip(kw["t_samples"][:-1], kw["samples"]):
                    x = ts * rate
                    if abs(x - round(x)) < 1e-6 and not abs(got[int(round(x))] - s) < 1e-6: raise Violation("numerical-sample", f"{kw} at {ts}")
            # linear in amplitude
            c = r.choice([-1.0, 0.5, 2.0, -3.25])
            kw2 = dict(kw)
            for k in ("amp", "G_amp", "amp_A", "amplitude", "start_amp", "final_amp", "offset"):
                if k in kw2: kw2[k] = kw2[k] * c
            if "samples" in kw2: kw2["samples"] = [s * c for s in kw2["samples"]]
            got2 = H.get_waveform(getattr(PL, kind)(port="p", clock=clock, **kw2).data["pulse_info"][0], rate)
            mon.count("linear")
            if not close(got2, c * np.asarray(got), 1e-7): raise Violation("linearity", f"{kind} {kw} x {c}")
            if r.random() < 0.5:
                a = H.area_pulse(pi, 1e9)
                w = wfref.sample_pulse_spec(kind, kw, 1e9)
                dur_s = pi["duration"]
                ref_a = kw["amp"] * kw["duration"] if kind == "SquarePulse" else w.mean() * dur_s
                if kind == "StaircasePulse": pass
                elif abs(a - ref_a) > 1e-7 * (abs(ref_a) + dur_s * 1e-3): raise Violation("area", f"{kind} {kw}: {a} vs {ref_a}")
                mon.count("area")
    # ---- direct calls
    for _ in range(6):
        n = r.randint(8, 200); rate = r.choice([1e9, 2.4e9, 1e8]); off = r.choice([0.0, 0.0, r.randint(-50, 50) / rate])
        t = np.arange(n) / rate + off; d = n / rate
        a, b = r.uniform(-1, 1), r.uniform(-1, 1)
        t_before = snap(t)
        checks = [
            ("square", W.square(t, a), wfref.square(t, a)),
            ("square_c", W.square(list(t), a + 1j * b), wfref.square(t, a + 1j * b)),
            ("square_imaginary", W.square_imaginary(t, a), wfref.square(t, 1j * a)),
            ("ramp", W.ramp(t, a, b, d), wfref.ramp(t, a, b, d)),
            ("ramp0", W.ramp(t, a, duration=d), wfref.ramp(t, a, 0, d)),
            ("soft_square", W.soft_square(t, a), wfref.soft_square(t, a)),
            ("chirp", W.chirp(t, a, 1e6, 3e7, d), wfref.chirp(t, a, 1e6, 3e7, d)),
            ("rotate", W.rotate_wave(W.square(t, a), 360 * b), wfref.rot(wfref.square(t, a), 360 * b)),
        ]
        for so in ("average", "first", "last", "none"):
            for sig in (None, d / 5):
                ph = r.uniform(-400, 400)
                checks.append(("drag_" + so, W.drag(t, a, b, d, None if sig else 3, sig, ph, so), wfref.drag(t, a, b, d, 3, sig, ph, so)))
        checks.append(("drag_default", W.drag(t, a, b, d, 4), wfref.drag(t, a, b, d, 4, None, 0)))
        try:
            W.drag(t, a, b, d, 4, d / 4)
            raise Violation("not-rejected", "drag accepts both sigma and nr_sigma")
        except ValueError: pass
        for p2 in (False, True):
            c = r.choice([None, d * r.uniform(0.3, 0.7)]); doct = r.choice([6.0, r.uniform(4, 9)])
            checks.append(("hermite", W.skewed_hermite(t, d, a, b * 1e-9, 50 * a, p2, c, doct), wfref.hermite(t, d, a, b * 1e-9, 50 * a, p2, c, doct)))
        ns = r.randint(2, 7)
        tt = (np.arange(n) + 0.37) / rate
        checks.append(("staircase", W.staircase(tt, a, b, ns, d), wfref.staircase(tt, a, b, ns, d)))
        arm, phi, corr = r.randint(1, n // 4), r.randint(0, n // 8), r.randint(1, n // 4)
        fl = lambda k: (k + r.choice([0, 0.0, 0.3, 0.8])) / 1e9
        t1 = np.arange(n) * 1e-9
        tp, tf, tc = (2 * arm + r.choice([0, 0.9])) / 1e9, fl(phi), fl(corr)
        checks.append(("snz", W.sudden_net_zero(t1, a, b, 0.7, tp, tf, tc), wfref.snz(n, 1e9, a, b, 0.7, tp, tf, tc)))
        m = r.randint(2, 9)
        ts = np.linspace(t[0], t[-1] + r.choice([0, 1 / rate]), m)
        s = np.array([complex(r.uniform(-1, 1), r.choice([0, r.uniform(-1, 1)])) for _ in range(m)])
        checks.append(("interp", W.interpolated_complex_waveform(t, s, ts), wfref.interp(t, s, ts)))
        if m >= 4:
            got = W.interpolated_complex_waveform(ts, s, ts, r.choice(["cubic", "quadratic", "nearest", "previous"]))
            checks.append(("interp_nodes", got, s))
        sr = [float(x.real) for x in s]
        g = W.interpolated_complex_waveform(t, sr, ts)
        if np.iscomplexobj(g): raise Violation("interp-real", "real samples give complex waveform")
        checks.append(("interp_real", g, wfref.interp(t, sr, ts)))
        # custom waveform function through the import path, unknown keys ignored
        pi = dict(wf_func="rtmon.checks.w01.custom_wf", amp=a, duration=d, port="p", clock="c", t0=0, foo=3)
        if r.random() < 0.5: pi["slope"] = 3.5
        checks.append(("custom", H.exec_waveform_function(pi["wf_func"], t, pi), a * np.cos(pi.get("slope", 2.0) * 1e7 * t)))
        for nm, got, ref in checks:
            mon.count("direct"); mon.count("samples_compared", len(ref)); mon.case((nm, n, rate, off, a, b), np.any(np.abs(ref) > 1e-6))
            if not close(got, ref, 1e-7): raise Violation("waveform:" + nm, f"n={n} rate={rate} off={off} a={a} b={b} arm={arm} phi={tf} corr={tc} ns={ns}: {got} expected {ref}")
        if not np.array_equal(t, t_before): raise Violation("mutated", "time array changed")
    # ---- helpers
    for _ in range(6):
        n = r.randint(1, 70); g = r.randint(1, 16)
        w = np.array([r.uniform(-1, 1) for _ in range(n)])
        if r.random() < 0.5: w = w + 1j * np.array([r.uniform(-1, 1) for _ in range(n)])
        w0 = snap(w)
        z = H.resize_waveform(w, g); want = -(-n // g) * g
        mon.count("helper"); mon.case(("resize", n, g))
        if len(z) != want or not np.array_equal(z[:n], w) or np.any(z[n:] != 0): raise Violation("resize", f"n={n} g={g} -> {z}")
        if H.get_waveform_size(w, g) != want: raise Violation("size", f"n={n} g={g} -> {H.get_waveform_size(w, g)}")
        dct = {1: w, 7: w[: max(1, n // 2)]}; H.resize_waveforms(dct, g)
        if len(dct[1]) != want or len(dct[7]) % g: raise Violation("resize_waveforms", f"{n} {g}")
        if len(H.resize_waveform(np.array([]), g)) != g: raise Violation("resize-empty", g)
        rate = r.choice([1e9, 2.4e9, 1.8e9]); res = r.choice([4, 8, 16]); start = r.randint(0, 4000)
        k, z = H.shift_waveform(w, start / rate, rate, res)
        mon.count("helper")
        if k * res + (len(z) - n) != start or not np.array_equal(z[len(z) - n:], w) or np.any(z[:len(z) - n] != 0) or len(z) - n >= res:
            raise Violation("shift", f"start {start} res {res}: {k} {len(z) - n}")
        # normalisation is invertible and scale-invariant
        c = r.choice([0.3, -2.0, 1.0])
        data, are, aim = H.normalize_waveform_data(w)
        mon.count("helper"); mon.case(("norm", n, repr(w[:2])))
        rec = np.real(data) * are + 1j * np.imag(data) * aim
        if not close(rec, w + 0j): raise Violation("normalize", f"{w} -> {data} {are} {aim}")
        if np.max(np.abs(np.real(data))) > 1 + 1e-12 or np.max(np.abs(np.imag(data))) > 1 + 1e-12: raise Violation("normalize-range", w)
        d2, a2, b2 = H.normalize_waveform_data(c * w)
        if not close(d2, data) or abs(a2 - c * are) > 1e-9 or abs(b2 - c * aim) > 1e-9: raise Violation("normalize-scale", w)
        z0, a0, b0 = H.normalize_waveform_data(np.zeros(n))
        if np.any(z0 != 0) or a0 != 0 or b0 != 0: raise Violation("normalize-zero", n)
        t = np.arange(n) / 1e9; f = r.uniform(-4e8, 4e8); t0 = r.choice([0, r.uniform(0, 1e-6)])
        got = H.modulate_waveform(t, w, f, t0); ref = w * np.exp(2j * np.pi * f * (t + t0))
        mon.count("helper")
        if not close(got, ref): raise Violation("modulate", f"{f} {t0}")
        back = H.modulate_waveform(t, got, -f, t0)
        if not close(back, w + 0j): raise Violation("modulate-inverse", f"{f}")
        wc = w + 1j * np.roll(np.real(w), 1) if n > 1 else w + 0j
        al, ph = r.uniform(0.7, 1.4), r.uniform(-40, 40)
        got = H.apply_mixer_skewness_corrections(wc, al, ph)
        p = np.deg2rad(ph); re = wc.real + wc.imag * np.tan(p); im = wc.imag / np.cos(p)
        sc = lambda x, o: (x / np.max(np.abs(x)) if np.max(np.abs(x)) else x * 0) * np.max(np.abs(o))
        ref = sc(re, wc.real) * np.sqrt(al) + 1j * sc(im, wc.imag) / np.sqrt(al)
        mon.count("helper")
        if not close(got, ref): raise Violation("mixer-skew", f"{al} {ph}")
        x, m = r.choice([r.randint(1, 500), r.uniform(0.1, 500)]), r.randint(1, 40)
        cc = M.closest_number_ceil(x, m); mon.count("helper")
        if cc % m or cc < x or cc - x > m: raise Violation("closest_number_ceil", f"{x} {m} {cc}")
        if not np.array_equal(w, w0): raise Violation("mutated", "helper changed its input")
        # area of several pulses and the DC compensation built from it
        ps = [getattr(PL, k)(port="p", **wfref.random_pulse(r, k, r.randint(8, 200), complex_ok=False)) for k in r.choices(["SquarePulse", "RampPulse", "SoftSquarePulse"], k=r.randint(1, 4))]
        noise = [PL.SquarePulse(amp=0.7, duration=5e-8, port="other"), PL.SquarePulse(amp=0.7, duration=5e-8, port="p", clock="q0.01")]
        area = sum(float(np.mean(np.real(H.get_waveform(q.data["pulse_info"][0], 1e9)))) * q.data["pulse_info"][0]["duration"] for q in ps)
        ar2 = H.area_pulses([q.data["pulse_info"][0] for q in ps], 1e9)
        if abs(area - ar2) > 1e-9 * (abs(area) + 1e-9): raise Violation("area_pulses", f"{area} {ar2}")
        if abs(area) > 1e-10:
            allp = ps + noise; r.shuffle(allp)
            if r.random() < 0.5: cp = PL.create_dc_compensation_pulse(allp, 1e9, "p", duration=1e-7)
            else: cp = PL.create_dc_compensation_pulse(allp, 1e9, "p", amp=r.choice([-1, 1]) * 0.3)
            i = cp.data["pulse_info"][0]; mon.count("dc_compensation")
            if abs(i["amp"] * i["duration"] + area) > 1e-6 * abs(area) or i["duration"] <= 0 or i["port"] != "p": raise Violation("dc-compensation", f"{area} {i}")
        k1, k2 = r.randint(5, 400), r.randint(1, 60)
        if k2 <= k1:
            lst = PL.decompose_long_square_pulse(k1 * 2.0 ** -20, k2 * 2.0 ** -20, amp=0.2, port="p", clock="cl0.baseband")
            ds = [q.data["pulse_info"][0]["duration"] for q in lst]; mon.count("helper")
            if abs(sum(ds) - k1 * 2.0 ** -20) > 1e-15 or max(ds) > k2 * 2.0 ** -20 or any(q.data["pulse_info"][0]["amp"] != 0.2 for q in lst): raise Violation("decompose", f"{k1} {k2} {ds}")
            ls2 = PL.decompose_long_square_pulse(k1 * 2.0 ** -20, k2 * 2.0 ** -20, single_duration=True, amp=0.2, port="p")
            if {q.data["pulse_info"][0]["duration"] for q in ls2} != {k2 * 2.0 ** -20} or len(ls2) != -(-k1 // k2): raise Violation("decompose-single", f"{k1} {k2}")
    # ---- short soft squares stay finite
    for n in (1, 2, 3, 4, 5, 6):
        z = W.soft_square(np.arange(n) * 1e-9, 0.5); mon.count("short_soft")
        if not np.all(np.isfinite(z)): raise Violation("soft-square-nan", f"{n} samples: {z}")
    try:
        z = W.drag(np.arange(20) * 1e-9, 0.5, 0.1, 20e-9, 4, subtract_offset=None)
    except AttributeError as e:
        raise Violation("drag-none", "documented value None of subtract_offset fails: " + str(e))
    mon.sample(dict(job=job, functions=list(wfref.PULSE_KINDS)))
