"""C12: spectra: (real) Fourier transforms whose magnitude is taken, and the signal pipelines built on them."""
import itertools

import numpy as np
import tensorflow as tf

from mc import tfcase
from mc.tfcase import Suite, mixed

tfcase.define(globals(), "C12", rule="one program per point of transform x rank x axis lengths x fft length x static/dynamic shape x dtype x opset x use of the spectrum; "
              "the magnitude is compared with TensorFlow's; programs that use the spectrum otherwise must be declined", group=6)

raw = tf.raw_ops
TOL = (1e-3, 2e-4)


def dynamic(shape, d):
    """d: 0 all static, 1 all unknown, 2 only the batch unknown, 3 only the last unknown, 4 unknown rank"""
    if d == 0:
        return list(shape)
    if d == 1:
        return [None] * len(shape)
    if d == 2:
        return [None] + list(shape[1:])
    if d == 3:
        return list(shape[:-1]) + [None]
    return None


def small(shape, dt, salt=0):
    return (mixed(shape, np.float64, salt) / 2).astype(dt)


def cases(tier):
    thorough = tier == "thorough"
    s = Suite()
    # ---- RFFT: every length and every transform length around it
    for n in range(1, 10 if not thorough else 17):
        for fl in sorted({1, 2, n // 2, n - 2, n - 1, n, n + 1, n + 2, n + 3} - {0, -1}) + [None]:
            for rank, d in itertools.product((1, 2, 3), (0,) if not thorough and n not in (4, 5) else (0, 1, 2)):
                shape = (2, 3, n)[3 - rank:]
                if d == 2 and rank == 1:
                    continue
                if d and not thorough and fl not in (n, None):
                    continue
                for o in (18,) if n not in (4, 5) or d and not thorough else (9, 10, 11, 13, 18) if thorough else (10, 13, 18):
                    f = lambda x, fl=fl: tf.abs(tf.signal.rfft(x, None if fl is None else [fl]))
                    s.add("rfft/%d_%s_r%d_d%d" % (n, fl, rank, d), f, [(dynamic(shape, d), tf.float32)], [[small(shape, np.float32, i)] for i in range(2)], opset=o, tol=TOL)
                if n in (4, 5) and (not d or thorough):
                    s.add("rfft64/%d_%s_r%d_d%d" % (n, fl, rank, d), lambda x, fl=fl: raw.ComplexAbs(x=raw.RFFT(input=x, fft_length=tf.constant([fl or 4]), Tcomplex=tf.complex128), Tout=tf.float64),
                          [(dynamic(shape, d), tf.float64)], [[small(shape, np.float64, i)] for i in range(2)], tol=TOL)
    for shape, d, o in itertools.product([(5,), (2, 4), (1, 7), (2, 3, 5), (2, 1, 3, 4), (1, 1, 1)], (0, 1, 2, 3), (9, 10, 13, 18)):
        if d in (1, 3) and o != 18 and not thorough:
            continue
        n = shape[-1]
        for fl in (n, n - 1 if n > 1 else n):
            s.add("rank/%s_%d_d%d" % (tfcase.shp(shape), fl, d), lambda x, fl=fl: tf.abs(raw.RFFT(input=x, fft_length=[fl])), [(dynamic(shape, d), tf.float32)],
                  [[small(shape, np.float32, i)] for i in range(2)], opset=o, tol=TOL)
    # ---- how the magnitude is used
    uses = {
        "log": lambda a: tf.math.log(a + 1e-3), "square": tf.square, "two": lambda a: (a, a * 2 + 1), "matmul": lambda a: tf.matmul(a, tf.constant(mixed((3, 2), np.float32))),
        "sum": lambda a: tf.reduce_sum(a, -1), "shape": lambda a: (a, tf.shape(a)), "transpose": lambda a: tf.transpose(a), "slice": lambda a: a[..., 1:], "max": lambda a: tf.reduce_max(a, 0, keepdims=True),
    }
    for (name, u), d, o in itertools.product(uses.items(), (0, 1), (11, 18)):
        d or s.add("use/%s_d%d" % (name, d), lambda x, u=u: u(tf.abs(tf.signal.rfft(x, [4]))), [(dynamic((3, 4), d), tf.float32)], [[small((3, 4), np.float32, i)] for i in range(2)], opset=o, tol=TOL)
        s.add("use2d/%s_d%d" % (name, d), lambda x, u=u: u(tf.abs(tf.signal.rfft2d(x, [3, 4]))), [(dynamic((3, 4), d), tf.float32)], [[small((3, 4), np.float32, i)] for i in range(2)], opset=o, tol=TOL)
    # the same input through several transforms; the same spectrum read twice
    for o in (11, 13, 18):
        s.add("share/two_lengths", lambda x: (tf.abs(tf.signal.rfft(x, [4])), tf.abs(tf.signal.rfft(x, [3]))), [([2, 4], tf.float32)], [[small((2, 4), np.float32)]], opset=o, tol=TOL)
        s.add("share/same", lambda x: (tf.abs(tf.signal.rfft(x, [4])), tf.abs(tf.signal.rfft(x, [4])) + 1), [([2, 4], tf.float32)], [[small((2, 4), np.float32)]], opset=o, tol=TOL)
        s.add("share/abs_twice", lambda x: (lambda c: (tf.abs(c), tf.abs(c) * 2))(tf.signal.rfft(x, [4])), [([2, 4], tf.float32)], [[small((2, 4), np.float32)]], opset=o, tol=TOL)
        s.add("share/1d2d", lambda x: (tf.abs(tf.signal.rfft(x, [4])), tf.abs(tf.signal.rfft2d(x, [3, 4]))), [([3, 4], tf.float32)], [[small((3, 4), np.float32)]], opset=o, tol=TOL)
        s.add("share/chain", lambda x: tf.abs(tf.signal.rfft(tf.abs(tf.signal.rfft(x, [4])), [3])), [([2, 4], tf.float32)], [[small((2, 4), np.float32)]], opset=o, tol=TOL)
    # the spectrum used in any other way: only to be declined
    other = {"real": tf.math.real, "imag": tf.math.imag, "angle": tf.math.angle, "irfft": lambda c: tf.signal.irfft(c), "mixed": lambda c: (tf.abs(c), tf.math.real(c)),
             "mul": lambda c: tf.abs(c * c), "conj": lambda c: tf.abs(tf.math.conj(c)), "absslice": lambda c: tf.abs(c[:, 1:]), "abstr": lambda c: tf.abs(tf.transpose(c)), "reshape": lambda c: tf.abs(tf.reshape(c, [-1])),
             "ident": lambda c: tf.abs(tf.identity(c)), "scale": lambda c: tf.abs(c * 2), "concat": lambda c: tf.abs(tf.concat([c, c], 0))}
    for (name, u), kind in itertools.product(other.items(), ("rfft", "rfft2d", "fft")):
        tr = {"rfft": lambda x: tf.signal.rfft(x, [4]), "rfft2d": lambda x: tf.signal.rfft2d(x, [3, 4]), "fft": lambda x: tf.signal.fft(tf.cast(x, tf.complex64))}[kind]
        s.add("other/%s_%s" % (kind, name), lambda x, u=u, tr=tr: u(tr(x)), [([3, 4], tf.float32)], [[small((3, 4), np.float32, i)] for i in range(2)], tol=TOL)
    # ---- FFT of a real signal
    for shape, d, o in itertools.product([(4,), (5,), (1, 3), (2, 4), (3, 2), (2, 3, 4)], (0, 1, 2), (9, 11, 13, 18)):
        if not thorough and (d or o not in (11, 18)):
            continue
        s.add("fft/%s_d%d" % (tfcase.shp(shape), d), lambda x: tf.abs(tf.signal.fft(tf.cast(x, tf.complex64))), [(dynamic(shape, d), tf.float32)], [[small(shape, np.float32, i)] for i in range(2)], opset=o, tol=TOL)
    # ---- RFFT2D
    m = range(1, 6)
    for a, b in itertools.product(m, m):
        fls = {(a, b), (a - 1, b), (a, b - 1), (a - 1, b - 1), (a + 1, b), (a, b + 1), (a + 1, b + 2), None}
        for fl in sorted((f for f in fls if f is None or min(f) > 0), key=str):
            for rank, d in ((2, 0), (3, 0), (2, 1)) if not thorough else ((2, 0), (3, 0), (2, 1), (3, 1), (3, 2), (4, 0)):
                shape = (2, 3, a, b)[4 - rank:]
                if not thorough and rank == 3 and (a + b) % 2:
                    continue
                for o in (18,) if (a, b) != (3, 4) else (10, 11, 13, 18):
                    name = "n" if fl is None else "%dx%d" % fl
                    s.add("rfft2d/%dx%d_%s_r%d_d%d" % (a, b, name, rank, d), lambda x, fl=fl: tf.abs(tf.signal.rfft2d(x, None if fl is None else list(fl))),
                          [(dynamic(shape, d), tf.float32)], [[small(shape, np.float32, i)] for i in range(2)], opset=o, tol=TOL)
    for shape, d, o in itertools.product([(3, 4), (2, 3, 4), (2, 1, 3, 5), (1, 1, 4, 4)], (0, 1, 2, 3), (11, 13, 18)):
        s.add("rank2d/%s_d%d" % (tfcase.shp(shape), d), lambda x: tf.abs(raw.RFFT2D(input=x, fft_length=[3, 3])), [(dynamic(shape, d), tf.float32)], [[small(shape, np.float32, i)] for i in range(2)], opset=o, tol=TOL)
        o == 18 and s.add("rank2d64/%s_d%d" % (tfcase.shp(shape), d), lambda x: raw.ComplexAbs(x=raw.RFFT2D(input=x, fft_length=[3, 3], Tcomplex=tf.complex128), Tout=tf.float64), [(dynamic(shape, d), tf.float64)],
              [[small(shape, np.float64, i)] for i in range(2)], opset=o, tol=TOL)
    # fft length from the input's own run-time shape or an input
    for o in (11, 13, 18):
        s.add("dynlen/rfft", lambda x: tf.abs(raw.RFFT(input=x, fft_length=tf.shape(x)[-1:])), [([None, None], tf.float32)], [[small((2, 4), np.float32)], [small((3, 5), np.float32)]], opset=o, tol=TOL)
        s.add("dynlen/rfft2d", lambda x: tf.abs(raw.RFFT2D(input=x, fft_length=tf.shape(x)[-2:])), [([None, None], tf.float32)], [[small((2, 4), np.float32)], [small((3, 5), np.float32)]], opset=o, tol=TOL)
        s.add("dynlen/rfft2d_in", lambda x, n: tf.abs(raw.RFFT2D(input=x, fft_length=n)), [([None, None], tf.float32), ([2], tf.int32)],
              [[small((4, 5), np.float32), np.array(f, np.int32)] for f in ((4, 5), (3, 5), (4, 4), (2, 3), (1, 1), (4, 1))], opset=o, tol=TOL)
    # ---- signal pipelines
    for ln, fr, st, fft, pad in itertools.product((8, 11), (4, 5), (1, 2, 3), (None, 4, 5, 8), (False, True)):
        for win, d in ((None, 0), ("hann", 0), ("hamming", 0), ("hann", 1)):
            if d and (st == 1 or ln == 8) and not thorough:
                continue
            w = {None: None, "hann": tf.signal.hann_window, "hamming": tf.signal.hamming_window}[win]
            s.add("stft/%d_%d_%d_%s_%s_%s_d%d" % (ln, fr, st, fft, pad, win, d), lambda x, fr=fr, st=st, fft=fft, pad=pad, w=w: tf.abs(tf.signal.stft(x, fr, st, fft, window_fn=w, pad_end=pad)),
                  [(dynamic((2, ln), d), tf.float32)], [[small((2, ln), np.float32, i)] for i in range(2)], tol=TOL, opset=18 if (ln + fr) % 2 else 13)
    for ln, fr, st, pad, ax, d in itertools.product((5, 8), (1, 3, 4), (1, 2, 4), (False, True), (-1, 0, 1), (0, 1)):
        if not thorough and (ln == 8 and ax == 1 or ln == 5 and fr == 1):
            continue
        s.add("frame/%d_%d_%d_%s_%d_d%d" % (ln, fr, st, pad, ax, d), lambda x, fr=fr, st=st, pad=pad, ax=ax: tf.signal.frame(x, fr, st, pad_end=pad, pad_value=1.5, axis=ax),
              [(dynamic((ln, ln), d), tf.float32)], [[small((ln, ln), np.float32, i)] for i in range(2)])
    mel = lambda x: tf.matmul(tf.abs(tf.signal.stft(x, 6, 3, 8)), tf.signal.linear_to_mel_weight_matrix(4, 5, 16.0, 1.0, 7.0))
    for d, o in itertools.product((0, 1, 2), (11, 13, 18)):
        s.add("mel/plain_d%d" % d, mel, [(dynamic((2, 12), d), tf.float32)], [[small((2, 12), np.float32, i)] for i in range(2)], opset=o, tol=TOL)
        s.add("mel/log_d%d" % d, lambda x: tf.math.log(mel(x) + 0.01), [(dynamic((2, 12), d), tf.float32)], [[small((2, 12), np.float32, i)] for i in range(2)], opset=o, tol=(5e-3, 1e-3))
    return s.out
