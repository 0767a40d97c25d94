"""Independent waveform formulas (vectorised over sample index), and sampling of operation descriptions.

Everything is written from the documented definitions; nothing of quantify_scheduler is used.
"""
import numpy as np

def nsamples(duration, rate):
    x = duration * rate
    r = round(x)
    return int(r) if abs(x - r) < 1e-4 else int(np.ceil(x))

def hann(m):
    if m == 1: return np.ones(1)
    n = np.arange(m)
    return 0.5 - 0.5 * np.cos(2 * np.pi * n / (m - 1))

def conv_same(a, w):
    full = np.convolve(a, w)
    # scipy 'same': centred with respect to the 'full' output, size of first input
    start = (len(full) - len(a)) // 2
    return full[start:start + len(a)]

def rot(w, deg):
    return w * np.exp(1j * np.deg2rad(deg))

def square(t, amp): return np.full(len(t), amp, dtype=complex)
def ramp(t, amp, offset, duration): return offset + np.asarray(t) * (amp / duration) + 0j
def staircase(t, start_amp, final_amp, num_steps, duration):
    x = np.asarray(t) * num_steps / duration
    k = np.clip(np.floor(x + 1e-9), 0, num_steps - 1)
    return start_amp + k * (final_amp - start_amp) / (num_steps - 1) + 0j
def staircase_ambiguous(t, num_steps, duration):
    x = np.asarray(t) * num_steps / duration
    return np.abs(x - np.round(x)) < 1e-6
def soft_square(t, amp):
    d = square(t, amp)
    if len(t) > 1:
        w = hann(len(t) // 2)
        if np.sum(w) > 0: d = conv_same(d, w) / np.sum(w)
    return d
def chirp(t, amp, start_freq, end_freq, duration):
    t = np.asarray(t)
    c = (end_freq - start_freq) / duration
    return amp * np.exp(2j * np.pi * (c * t * t / 2 + start_freq * t))
def drag(t, G_amp, D_amp, duration, nr_sigma, sigma, phase, subtract="average"):
    t = np.asarray(t); mu = t[0] + duration / 2
    if sigma is None: sigma = duration / 2 / nr_sigma
    g = G_amp * np.exp(-((t - mu) / sigma) ** 2 / 2)
    d = -D_amp * (t - mu) / sigma * g
    if subtract == "average": g = g - (g[0] + g[-1]) / 2; d = d - (d[0] + d[-1]) / 2
    elif subtract == "first": g = g - g[0]; d = d - d[0]
    elif subtract == "last": g = g - g[-1]; d = d - d[-1]
    return rot(g + 1j * d, phase)
def snz(n, rate, amp_A, amp_B, scale, t_pulse, t_phi, t_corr):
    fl = lambda x: int(np.floor(x * rate + 1e-4))
    a, m, c = fl(t_pulse / 2), fl(t_phi), fl(t_corr)
    w = np.zeros(n)
    w[:a] = amp_A; w[a - 1] = amp_A * amp_B
    w[a + m:2 * a + m] = -amp_A * scale; w[a + m] = -amp_A * scale * amp_B
    if c: w[2 * a + m:2 * a + m + c] = -w.sum() / c
    return w + 0j
def hermite(t, duration, amplitude, skewness, phase, pi2=False, center=None, doct=6.0):
    t = np.asarray(t); T = duration / doct; f = 0.667 if pi2 else 0.956
    c = (duration / 2 if center is None else center) + t[0]
    x = (t - c) / T
    e = np.exp(-x * x)
    I = amplitude * (1 - f * x * x) * e
    Qc = amplitude * skewness / np.pi * x / T * (f + 1 - f * x * x) * e
    return rot(I + 1j * Qc, phase)
def interp(t, samples, t_samples):
    """linear interpolation with one-sample linear extrapolation at the end"""
    s = np.asarray(samples, dtype=complex); ts = np.asarray(t_samples, dtype=float); t = np.asarray(t)
    i = np.clip(np.searchsorted(ts, t, side="right") - 1, 0, len(ts) - 2)
    f = (t - ts[i]) / (ts[i + 1] - ts[i])
    return s[i] * (1 - f) + s[i + 1] * f

def sample_pulse_spec(kind, kw, rate=1e9):
    """Samples of a pulse given its constructor name and its keyword arguments."""
    if kind == "NumericalPulse":
        dur = kw["t_samples"][-1] - kw["t_samples"][0]
    elif kind == "SuddenNetZeroPulse":
        dur = kw["t_pulse"] + kw["t_phi"] + kw["t_integral_correction"]
    else: dur = kw["duration"]
    n = nsamples(dur, rate); t = np.arange(n) / rate
    if kind == "SquarePulse": return square(t, kw["amp"])
    if kind == "RampPulse": return ramp(t, kw["amp"], kw.get("offset", 0), dur)
    if kind == "StaircasePulse": return staircase(t, kw["start_amp"], kw["final_amp"], kw["num_steps"], dur)
    if kind == "SoftSquarePulse": return soft_square(t, kw["amp"])
    if kind == "ChirpPulse": return chirp(t, kw["amp"], kw["start_freq"], kw["end_freq"], dur)
    if kind == "DRAGPulse": return drag(t, kw["G_amp"], kw["D_amp"], dur, 4, kw.get("sigma"), kw["phase"])
    if kind == "GaussPulse": return drag(t, kw["G_amp"], 0, dur, 4, kw.get("sigma"), kw["phase"])
    if kind == "SuddenNetZeroPulse": return snz(n, rate, kw["amp_A"], kw["amp_B"], kw["net_zero_A_scale"], kw["t_pulse"], kw["t_phi"], kw["t_integral_correction"])
    if kind == "NumericalPulse": return interp(t, kw["samples"], np.asarray(kw["t_samples"], float))
    if kind == "SkewedHermitePulse": return hermite(t, dur, kw["amplitude"], kw["skewness"], kw["phase"])
    raise KeyError(kind)

PULSE_KINDS = ["SquarePulse", "RampPulse", "StaircasePulse", "SoftSquarePulse", "ChirpPulse", "DRAGPulse", "GaussPulse",
               "SuddenNetZeroPulse", "NumericalPulse", "SkewedHermitePulse"]

def random_pulse(r, kind, dur_ns, amp=0.4, complex_ok=True):
    """Random constructor keyword arguments (JSON-able except complex), without port/clock."""
    d = dur_ns * 1e-9 if r.random() < 0.5 else float(f"{dur_ns}e-9")
    a = lambda: round(r.uniform(0.05, amp), 4) * r.choice([1, -1])
    if kind == "SquarePulse":
        v = a()
        if complex_ok and r.random() < 0.3: v = complex(a(), a())
        return dict(amp=v, duration=d)
    if kind == "RampPulse": return dict(amp=a() / 2, offset=r.choice([0, a() / 2]), duration=d)
    if kind == "StaircasePulse": return dict(start_amp=a(), final_amp=a(), num_steps=r.randint(2, 6), duration=d)
    if kind == "SoftSquarePulse": return dict(amp=a(), duration=d)
    if kind == "ChirpPulse": return dict(amp=a(), start_freq=r.uniform(1e6, 5e7), end_freq=r.uniform(1e6, 5e7), duration=d)
    if kind == "DRAGPulse": return dict(G_amp=a(), D_amp=a() / 2, phase=r.uniform(-360, 360), duration=d, sigma=r.choice([None, d / r.uniform(3, 9)]))
    if kind == "GaussPulse": return dict(G_amp=a(), phase=r.uniform(-360, 360), duration=d, sigma=r.choice([None, d / r.uniform(3, 9)]))
    if kind == "SuddenNetZeroPulse":
        arm = max(1, dur_ns // 5); phi = max(0, min(dur_ns - 2 * arm - 1, r.randint(0, dur_ns // 3))); c = dur_ns - 2 * arm - phi
        g = lambda n: float(f"{n}e-9")
        return dict(amp_A=a(), amp_B=round(r.uniform(0.2, 1), 3), net_zero_A_scale=round(r.uniform(0.5, 1), 3), t_pulse=g(2 * arm), t_phi=g(phi), t_integral_correction=g(c))
    if kind == "NumericalPulse":
        m = r.randint(4, 12) if dur_ns >= 12 else 4
        ts = sorted(r.sample(range(1, dur_ns), min(m, dur_ns - 1) - 2)) if dur_ns > 6 else [2]
        ts = [0] + ts + [dur_ns]
        s = [complex(a(), a()) if complex_ok else a() for _ in ts]
        return dict(samples=s, t_samples=[float(f"{x}e-9") if x else 0.0 for x in ts])
    if kind == "SkewedHermitePulse": return dict(duration=d, amplitude=a(), skewness=r.uniform(0, 5e-9) if complex_ok else 0.0, phase=r.uniform(-180, 180) if complex_ok else 0.0)
    raise KeyError(kind)
