"""How to call each public function: arguments with n slices, drawn from a seeded generator."""
import numpy as np
import tomopy

ALGS = ('art', 'bart', 'fbp', 'gridrec', 'mlem', 'osem', 'ospml_hybrid', 'ospml_quad', 'pml_hybrid',
        'pml_quad', 'sirt', 'tv', 'grad', 'tikh')


class Call(object):
    """arrays: the array arguments by name; sliced: the axis of the slices in each of them;
    axis: the axis passed to the function, if it takes one."""

    def __init__(self, fn, f, arrays, sliced, main, axis=None, integer=False):
        self.fn, self.f, self.arrays, self.sliced, self.main = fn, f, arrays, sliced, main
        self.axis, self.integer = axis, integer

    def __call__(self, arrays=None, **par):
        a = dict(self.arrays if arrays is None else arrays)
        out = self.f(a, par)
        if isinstance(out, tuple):
            out = np.stack(out, -1)
        return out

    def select(self, idx):
        """the arguments with only these slices"""
        b = dict(self.arrays)
        for k, ax in self.sliced.items():
            b[k] = np.ascontiguousarray(np.take(b[k], idx, ax))
        return b


def make(fn, r, rs, n, integer=False):
    """integer: integer valued data (so that it can be given in integer dtypes)"""
    def data(sh, lo=1, hi=9):
        if integer:
            return rs.randint(lo, hi + 1, sh).astype('float32')
        return (lo + (hi - lo) * rs.rand(*sh)).astype('float32') / 4

    P = dict
    name = fn
    if fn in ('minus_log', 'adjust_range', 'remove_nan', 'remove_neg', 'median_filter_nonfinite', 'blur_edges'):
        a = data([n, r.randint(2, 6), r.randint(2, 7)])
        if fn in ('remove_nan', 'median_filter_nonfinite') and not integer:
            a[rs.rand(*a.shape) < .1] = np.nan
        if fn == 'remove_neg' and not integer:
            a = a - np.float32(1)
        kw = {}
        if fn == 'adjust_range':
            kw = dict(dmin=2.0 if integer else 1.0)
        if fn == 'median_filter_nonfinite':
            kw = dict(size=5)
        return Call(fn, lambda A, p: getattr(tomopy, name)(A['a'], **dict(kw, **p)), dict(a=a), dict(a=0), 'a')
    if fn in ('normalize', 'normalize_rows'):
        rows = n if fn == 'normalize_rows' else r.randint(2, 5)
        m = r.randint(2, 5) if fn == 'normalize_rows' else n
        w = r.randint(2, 7)
        a, fl, dk = data([m, rows, w]), data([r.randint(1, 4), rows, w], 10, 20), data([r.randint(1, 4), rows, w], 0, 2)
        kw = dict(cutoff=r.choice([None, 1.0, .2]), averaging=r.choice(['mean', 'median']))
        sl = dict(a=0) if fn == 'normalize' else dict(a=1, flat=1, dark=1)
        return Call(fn, lambda A, p: tomopy.normalize(A['a'], A['flat'], A['dark'], **dict(kw, **p)),
                    dict(a=a, flat=fl, dark=dk), sl, 'a')
    if fn == 'normalize_nf':
        m, w = r.randint(4, 9), r.randint(2, 7)
        a, fl, dk = data([m, n, w]), data([4, n, w], 10, 20), data([2, n, w], 0, 2)
        kw = dict(flat_loc=[1, m - 1], averaging=r.choice(['mean', 'median']))
        return Call(fn, lambda A, p: tomopy.normalize_nf(A['a'], A['flat'], A['dark'], **dict(kw, **p)),
                    dict(a=a, flat=fl, dark=dk), dict(a=1, flat=1, dark=1), 'a')
    if fn == 'shift_images':
        a = data([n + 1, r.randint(3, 6), r.randint(3, 7)])
        a[:, 0, 0] = 0
        sh = dict(sx=rs.randint(-2, 3, n + 1).astype('float32'), sy=rs.randint(-2, 3, n + 1).astype('float32'))
        return Call(fn, lambda A, p: tomopy.shift_images(A['a'], A['sx'], A['sy']), dict(a=a, **sh), {}, 'a')
    if fn == 'scale':
        a = data([n + 1, r.randint(1, 6), r.randint(1, 7)]) - np.float32(1)
        return Call(fn, lambda A, p: tomopy.prep.alignment.scale(A['a'])[0], dict(a=a), {}, 'a')
    if fn == 'normalize_roi':
        a = data([n, r.randint(3, 6), r.randint(3, 7)])
        roi = [0, 1, 2, 3]
        return Call(fn, lambda A, p: tomopy.normalize_roi(A['a'], roi=roi, **p), dict(a=a), dict(a=0), 'a')
    if fn == 'normalize_bg':
        a = data([n, r.randint(1, 5), r.randint(4, 9)])
        air = r.choice([1, 2])
        return Call(fn, lambda A, p: tomopy.normalize_bg(A['a'], air=air, **p), dict(a=a), dict(a=0), 'a')
    if fn == 'retrieve_phase':
        a = data([n, r.randint(4, 8), r.randint(4, 9)])
        kw = dict(pixel_size=1e-3, dist=r.choice([10, 100]), alpha=r.choice([1e-3, 1e-2]), pad=r.random() < .6)
        return Call(fn, lambda A, p: tomopy.retrieve_phase(A['a'], **dict(kw, **p)), dict(a=a), dict(a=0), 'a')
    if fn == 'distortion_correction_proj':
        a = data([n, r.randint(4, 8), r.randint(4, 9)])
        kw = dict(xcenter=3.2, ycenter=2.7, list_fact=[1.0, 1e-2, -1e-3])
        return Call(fn, lambda A, p: tomopy.distortion_correction_proj(A['a'], **dict(kw, **p)), dict(a=a), dict(a=0), 'a')
    if fn == 'distortion_correction_sino':
        a = data([n, r.randint(4, 8), r.randint(4, 9)])
        kw = dict(ind=r.randint(1, 3), xcenter=3.2, ycenter=2.7, list_fact=[1.0, 1e-2, -1e-3])
        return Call(fn, lambda A, p: tomopy.distortion_correction_sino(A['a'], **kw), dict(a=a), dict(a=0), 'a')
    if fn in ('stripes_detect3d', 'stripes_mask3d'):
        a = data([r.randint(16, 24), n + 2, r.randint(12, 18)])
        if fn == 'stripes_detect3d':
            kw = dict(size=r.randint(2, 6), radius=r.randint(1, 2))
            return Call(fn, lambda A, p: tomopy.stripes_detect3d(A['a'], **dict(kw, **p)), dict(a=a), {}, 'a')
        a = (rs.rand(*a.shape) ** .5).astype('float32')
        a[:, :, 4:7] *= .3
        kw = dict(threshold=.6, min_stripe_length=4, min_stripe_depth=2, min_stripe_width=2, sensitivity_perc=r.choice([40., 85.]))
        return Call(fn, lambda A, p: tomopy.stripes_mask3d(A['a'], **dict(kw, **p)), dict(a=a), {}, 'a')
    if fn.startswith('remove_') and ('stripe' in fn):
        m, w = r.randint(16, 22), r.randint(16, 24)
        if fn == 'remove_stripe_based_fitting':
            m, w = r.randint(20, 24), r.randint(20, 24)
        a = data([m, n, w], 6, 9) if not integer else data([m, n, w], 15, 30)
        a[:, :, w // 3] *= np.float32(1.5) if not integer else 2      # a stripe
        if n > 1:
            a[:, n // 2] *= 3
        kw = {}
        if fn == 'remove_stripe_fw':
            kw = dict(level=r.choice([1, 2, 3]), sigma=r.choice([1, 2]), pad=r.random() < .5)
        elif fn == 'remove_stripe_ti':
            kw = dict(nblock=r.choice([0, 0, 2]), alpha=1.5)
            if kw['nblock']:
                a = a[:a.shape[0] // 2 * 2]
        elif fn == 'remove_stripe_sf':
            kw = dict(size=r.choice([2, 3, 5]))
        elif fn in ('remove_stripe_based_sorting', 'remove_stripe_based_filtering'):
            kw = dict(size=r.choice([None, 3, 5]), dim=r.choice([1, 2]))
            if 'filtering' in fn:
                kw['sigma'] = 3
        elif fn == 'remove_stripe_based_fitting':
            kw = dict(order=r.choice([1, 2]), sigma=(5, 20))
        elif fn in ('remove_large_stripe', 'remove_stripe_based_interpolation'):
            kw = dict(snr=3, size=7, drop_ratio=r.choice([.1, .3]), norm=r.random() < .5)
        elif fn == 'remove_dead_stripe':
            kw = dict(snr=3, size=7, norm=r.random() < .5)
        elif fn == 'remove_all_stripe':
            kw = dict(snr=3, la_size=7, sm_size=5, dim=r.choice([1, 2]))
        return Call(fn, lambda A, p: getattr(tomopy, name)(A['a'], **dict(kw, **p)), dict(a=a), dict(a=1), 'a')
    if fn in ('gaussian_filter', 'median_filter', 'sobel_filter', 'remove_outlier', 'remove_outlier1d', 'circ_mask',
              'downsample', 'upsample', 'pad', 'inpainter_slices'):
        ax = r.randrange(3)
        sax = ax
        if fn in ('downsample', 'upsample', 'pad', 'remove_outlier1d'):      # the slices are across the other axes
            sax = (ax + r.choice([1, 2])) % 3
        sh = [r.randint(3, 7), r.randint(3, 7), r.randint(3, 7)]
        if fn == 'inpainter_slices':
            sh = [r.randint(5, 7), r.randint(5, 7), r.randint(5, 7)]
        sh[sax] = n
        a = data(sh)
        arrays, sl = dict(a=a), dict(a=sax)
        kw = {}
        if fn == 'gaussian_filter':
            kw = dict(sigma=1.0, order=r.choice([0, 1]))
        elif fn == 'median_filter':
            kw = dict(size=r.choice([2, 3]))
        elif fn in ('remove_outlier', 'remove_outlier1d'):
            kw = dict(dif=2 if integer else .5, size=3)
        elif fn == 'circ_mask':
            kw = dict(ratio=r.choice([1, .7]), val=r.choice([0, 5]))
        elif fn in ('downsample', 'upsample'):
            kw = dict(level=r.choice([1, 2]) if sh[ax] >= 4 else 1)
        elif fn == 'pad':
            kw = dict(npad=r.choice([1, 2]), mode=r.choice(['edge', 'constant']))
        f = fn
        if fn == 'inpainter_slices':
            m = rs.rand(*sh) < .15
            arrays['mask'], sl['mask'] = m, sax
            kw = dict(size=3, iterations=r.choice([0, 2]), inpainting_type='mean')
            return Call(fn, lambda A, p: tomopy.inpainter_morph(A['a'], A['mask'], axis=ax, **dict(kw, **p)), arrays, sl, 'a', sax)
        return Call(fn, lambda A, p: getattr(tomopy, f)(A['a'], axis=ax, **dict(kw, **p)), arrays, sl, 'a', sax)
    if fn == 'inpainter_volume':
        sh = [n + 2, r.randint(4, 7), r.randint(4, 7)]
        a, m = data(sh), rs.rand(*sh) < .1
        kw = dict(size=3, iterations=r.choice([0, 2]), inpainting_type=r.choice(['mean']))
        return Call(fn, lambda A, p: tomopy.inpainter_morph(A['a'], A['mask'], **dict(kw, **p)), dict(a=a, mask=m), {}, 'a')
    if fn in ('median_filter3d', 'remove_outlier3d'):
        a = data([n + 2, r.randint(3, 7), r.randint(3, 7)])
        kw = dict(size=r.choice([3, 5]))
        if fn == 'remove_outlier3d':
            kw['dif'] = 2 if integer else .5
        return Call(fn, lambda A, p: getattr(tomopy, name)(A['a'], **dict(kw, **p)), dict(a=a), {}, 'a')
    if fn == 'remove_ring':
        w = r.randint(16, 24)
        a = data([n, w, w], 1, 3)
        y, x = np.mgrid[:w, :w] - (w - 1) / 2.0
        rad = np.sqrt(x * x + y * y)
        for k in range(n):
            a[k][np.abs(rad - 5 - k % 3) < .7] += 6
        kw = dict(thresh=1000.0, thresh_max=1000.0, thresh_min=-1000.0, theta_min=30, rwidth=r.choice([5, 10]),
                  int_mode=r.choice(['WRAP', 'REFLECT']))
        return Call(fn, lambda A, p: tomopy.remove_ring(A['a'], **dict(kw, **p)), dict(a=a), dict(a=0), 'a')
    if fn == 'enhance_projs_aps_1id':
        a = data([n, r.randint(5, 8), r.randint(5, 8)])
        ks = r.choice([3, 5])
        return Call(fn, lambda A, p: tomopy.enhance_projs_aps_1id(A['a'], median_ks=ks, **p), dict(a=a), dict(a=0), 'a')
    if fn == 'sino_360_to_180':
        a = data([r.choice([4, 6]), n, r.randint(5, 8)])
        kw = dict(overlap=r.choice([0, 2, 3]), rotation=r.choice(['left', 'right']))
        return Call(fn, lambda A, p: tomopy.sino_360_to_180(A['a'], **kw), dict(a=a), dict(a=1), 'a')
    # ---------------------------------------------------------------- projection
    nang, w = r.randint(3, 9), r.randint(4, 12)
    theta = tomopy.angles(nang, 1.0, 179.0).astype('float32')
    theta = (theta + rs.rand(nang) * .05).astype('float32')
    cen = (w / 2.0 + (rs.rand(n) - .5) * 2).astype('float32')
    if fn in ('project', 'project_sino', 'project2', 'project3', 'project3_volume'):
        if fn == 'project3_volume':       # seen along another axis: cubes only
            n = w
            cen = (w / 2.0 + (rs.rand(n) - .5) * 2).astype('float32')
        h = w if n == w or r.random() < .6 else r.randint(4, 12)
        kw = dict(pad=r.random() < .5)
        arrays, sl = dict(obj=data([n, w, h]), theta=theta, center=cen + (1 if kw['pad'] else 0)), dict(obj=0, center=0)
        if fn == 'project2':
            arrays['oy'] = data([n, w, h])
            sl['oy'] = 0
            return Call(fn, lambda A, p: tomopy.project2(A['obj'], A['oy'], A['theta'], center=A['center'], **kw), arrays, sl, 'obj')
        if fn in ('project3', 'project3_volume'):
            for k in ('oy', 'oz'):
                arrays[k] = data([n, w, h])
                sl[k] = 0
            kw['axis'] = 0 if fn == 'project3' else r.choice([1, 2])
            if fn == 'project3_volume':
                sl = {}
            return Call(fn, lambda A, p: tomopy.project3(A['obj'], A['oy'], A['oz'], A['theta'], center=A['center'], **kw),
                        arrays, sl, 'obj')
        kw['emission'] = r.random() < .7
        kw['sinogram_order'] = fn == 'project_sino'
        return Call(fn, lambda A, p: tomopy.project(A['obj'], A['theta'], center=A['center'], **dict(kw, **p)), arrays, sl, 'obj')
    if fn in ('vector', 'vector2', 'vector3'):
        k = {'vector': 1, 'vector2': 2, 'vector3': 3}[fn]
        arrays, sl = {}, {}
        if k > 1:                 # the data sets are seen along different axes: cubes only
            n = w = r.randint(3, 6)
        for i in range(k):
            arrays['t%d' % i] = data([nang, n, w])
            arrays['a%d' % i] = (theta + .1 * i).astype('float32')
            arrays['c%d' % i] = (w / 2.0 + (rs.rand(n) - .5) * 2).astype('float32')
            if k == 1:
                sl['t%d' % i], sl['c%d' % i] = 1, 0
        it = r.choice([1, 2])
        return Call(fn, lambda A, p: getattr(tomopy, name)(
            *[A['t%d' % i] for i in range(k)], *[A['a%d' % i] for i in range(k)],
            *[A['c%d' % i] for i in range(k)], num_iter=it), arrays, sl, 't0')
    assert fn in ALGS, fn
    sino = r.random() < .5
    arrays = dict(tomo=data([nang, n, w]), theta=theta, center=cen)
    sl = dict(tomo=1, center=0)
    kw = {}
    gx = gy = w
    if fn not in ('gridrec',) and r.random() < .5:
        gx, gy = r.randint(3, w), r.randint(3, w)
        if fn in ('tv', 'grad', 'tikh'):
            gy = gx
        kw.update(num_gridx=gx, num_gridy=gy)
    if fn not in ('fbp', 'gridrec'):
        kw['num_iter'] = r.choice([1, 2, 3])
        if r.random() < .4:
            arrays['init'], sl['init'] = data([n, gx, gy]), 0
    else:
        kw['filter_name'] = r.choice(['none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak', 'parzen', 'butterworth'])
    if fn in ('bart', 'osem', 'ospml_hybrid', 'ospml_quad') and r.random() < .7:
        nb = r.randint(1, nang)
        kw['num_block'] = nb
        arrays['ind'] = rs.permutation(nang).astype('int32')
    if fn in ('ospml_hybrid', 'ospml_quad', 'pml_hybrid', 'pml_quad'):
        arrays['reg'] = np.array([.1, .2], 'float32')
    if fn in ('tv', 'grad', 'tikh'):
        arrays['reg'] = np.array([1, .01] if fn == 'tv' else [.1, .1], 'float32')
    if fn == 'tikh' and r.random() < .6:
        arrays['regd'], sl['regd'] = data([n, gx, gy]), 0
    # gridrec reconstructs slices in pairs
    def rec(A, p):
        k = dict(kw, **p)
        if 'init' in A:
            k['init_recon'] = A['init']
        if 'ind' in A:
            k['ind_block'] = A['ind']
        if 'reg' in A:
            k['reg_par'] = A['reg']
        if 'regd' in A:
            k['reg_data'] = A['regd']
        t = A['tomo']
        if sino:
            t = np.ascontiguousarray(np.swapaxes(t, 0, 1)) if t.flags.c_contiguous else np.swapaxes(t, 0, 1)
        return tomopy.recon(t, A['theta'], center=A['center'], sinogram_order=sino, algorithm=fn, **k)
    return Call(fn, rec, arrays, sl, 'tomo')
