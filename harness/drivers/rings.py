"""remove_ring on random slices."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy


def steady(cx, cy, w, h):
    """no polar sample lies on the line between two pixels but for rounding"""
    R = min(int(cx) + 1, int(cy) + 1, int(w - cx), int(h - cy))
    H = int(math.floor(2 * math.pi * R + .5))
    a = (2 * np.arange(H) + 1) * math.pi / H
    k = np.arange(R)[:, None]
    for v in ((k * np.cos(a) + cx)[1:], (k * np.sin(a) + cy)[1:]):
        f = (v + .5) % 1
        if v.size and min(f.min(), (1 - f).min()) < 1e-4:
            return 0, 0
    return R, H


def image(r, rs, w, h, cx, cy, kind):
    y, x = np.mgrid[:h, :w]
    d = np.hypot(x - cx, y - cy)
    if kind == 'noise':
        return rs.randint(-9, 10, (h, w))
    a = rs.randint(3, 9) + (x + 2 * y) // 7 * rs.randint(0, 2) + rs.randint(0, 2, (h, w))
    for _ in range(r.randint(1, 4)):
        k, v = r.uniform(0, min(w, h) / 2), r.choice([-6, -3, 2, 4, 7, 12])
        ring = np.abs(d - k) < r.choice([.5, .7, 1])
        if r.random() < .4:
            ring &= np.arctan2(y - cy, x - cx) < r.uniform(-2, 3)
        a = a + v * ring
    return a


def one(c):
    r, rs = vt.rng('ring', c), vt.nprng('ringn', c)
    while True:
        w, h = r.randint(3, 17 if vt.THOROUGH else 13), r.randint(3, 17 if vt.THOROUGH else 13)
        if r.random() < .35:
            given = {}
            cx, cy = (w - 1) / 2, (h - 1) / 2
        else:
            q = r.choice([1, 2, 4, 8])
            cx, cy = r.randint(0, q * (w - 1)) / q, r.randint(0, q * (h - 1)) / q
            if r.random() < .6:
                cx, cy = (r.randint(0, 8) - 4) / 4 + w // 2, (r.randint(0, 8) - 4) / 4 + h // 2
            if not (0 <= cx <= w - 1 and 0 <= cy <= h - 1):
                continue
            given = dict(center_x=cx, center_y=cy)
        R, H = steady(cx, cy, w, h)
        if not R:
            continue
        theta = r.choice([0, 7, 20, 30, 50, 90, 120, 150, 179, r.randint(0, 179)])
        # the width of the window must not depend on rounding
        if theta == 0 or H * theta % 360:
            break
    n = r.choice([1, 1, 2, 3])
    imgs = np.array([image(r, rs, w, h, cx, cy, r.choice(['noise', 'rings', 'rings'])) for _ in range(n)])
    tmax, tmin = r.choice([(300, -100), (8, 0), (5, -5), (12, 3)])
    thresh = r.choice([300, 300, 4, 6, 2, 0])
    width = r.choice([0, 0, 1, 1, 2, 3, 5, 30])
    wrap = r.random() < .5
    kw = dict(given, thresh=thresh, thresh_max=tmax, thresh_min=tmin, theta_min=theta, rwidth=width,
              int_mode=r.choice(['WRAP', 'wrap'] if wrap else ['REFLECT', 'reflect']))
    if r.random() < .5:
        kw['ncore'] = r.choice([1, 2, 3])
    if r.random() < .4:
        kw['nchunk'] = r.choice([1, 2])
    x = vt.layout(imgs.astype(r.choice(['float32', 'float32', 'int16', 'float64'])), r.choice(vt.LAYOUTS))
    given_x = np.array(x)
    if r.random() < .2 and x.dtype == np.float32:
        kw['out'] = np.zeros(imgs.shape, np.float32)
    got, v = vt.call(lambda: tomopy.remove_ring(x, **kw))
    rec = dict(op='ring', imgs=imgs, outs=[], outcome=got,
               par=dict(cx=vt.dbl(cx), cy=vt.dbl(cy), tmax=tmax, tmin=tmin, thresh=thresh, theta=theta,
                        width=width, wrap=wrap))
    if got == 'ok':
        rec['outs'] = vt.dbl(v)
        if not np.array_equal(x, given_x) or ('out' in kw and v is not kw['out']):
            rec['outcome'] = 'changed'
    else:
        rec['error'] = v
    return rec


vt.write_trace(vt.run_cases(list(range(1500 if vt.THOROUGH else 240)), one, on_fail=lambda c, how: dict(op='ring', outcome=how)))
