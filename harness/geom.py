"""Which geometries the specification judges (see Geometry.tla, ClearRay)."""
import numpy as np


def raypos(dx, c, d):
    mov = (dx - 1) / 2.0 - c
    fr = mov - np.floor(mov)
    return d - c + .5 + (.01 if fr < .01 else 0), abs(fr - .01) > 1e-3


def clear(nx, ny, theta, dx, c, m=.02):
    for th in theta:
        co, si = np.cos(th), np.sin(th)
        if (1e-4 < abs(co) < .02) or (1e-4 < abs(si) < .02):
            return False
        for d in range(dx):
            s, ok = raypos(dx, c, d)
            if not ok:
                return False
            ox, oy = -s * si, s * co
            gx, gy = np.arange(nx + 1) - nx / 2.0, np.arange(ny + 1) - ny / 2.0
            if abs(co) < 1e-4:
                if np.abs(ox - gx).min() < m:
                    return False
            else:
                cr = oy + (gx - ox) / co * si
                if min(np.abs(cr - gy[0]).min(), np.abs(cr - gy[-1]).min()) < m:
                    return False
            if abs(si) < 1e-4:
                if np.abs(oy - gy).min() < m:
                    return False
            else:
                cr = ox + (gy - oy) / si * co
                if min(np.abs(cr - gx[0]).min(), np.abs(cr - gx[-1]).min()) < m:
                    return False
    return True


def chord(nx, ny, th, s):
    co, si = np.cos(th), np.sin(th)
    ox, oy = -s * si, s * co

    def span(n, o, v):
        if abs(v) < 1e-9:
            return (-1e9, 1e9) if abs(o) < n / 2.0 else (0, 0)
        a, b = (-n / 2.0 - o) / v, (n / 2.0 - o) / v
        return min(a, b), max(a, b)
    x, y = span(nx, ox, co), span(ny, oy, si)
    return max(0, min(x[1], y[1]) - max(x[0], y[0]))


def angle(r):
    """a float32 angle; also beyond one turn, negative and along the axes"""
    k = r.random()
    if k < .15:
        t = r.choice([0, .25, .5, .75, 1, 1.5, -.5, 2]) * np.pi
    elif k < .8:
        t = r.uniform(0, np.pi)
    else:
        t = r.uniform(-3 * np.pi, 3 * np.pi)
    return np.float32(t)


def centre(r, dx):
    k = r.random()
    if k < .3:
        return np.float32(dx / 2.0)
    if k < .7:
        return np.float32(r.randint(2 * dx, 6 * dx) / 8.0)
    if k < .9:
        return np.float32(r.uniform(0.2, .8) * dx)
    return np.float32(r.uniform(-.2, 1.2) * dx)


def choose(r, nx, ny, dx, nt, nc, m=.02):
    """angles (nt) and centres (nc) of a geometry that can be judged"""
    cs = [centre(r, dx) for _ in range(nc)]
    th = []
    tries = 0
    while len(th) < nt:
        t = angle(r)
        tries += 1
        if all(clear(nx, ny, [float(t)], dx, float(c), m) for c in cs):
            th.append(t)
        elif tries > 60:
            cs = [centre(r, dx) for _ in range(nc)]
            th, tries = [], 0
    return np.array(th, np.float32), np.array(cs, np.float32)
