"""C24: plots show the samples and measures they are given."""
import os
import shutil
import tempfile
import numpy as np
import scipy.spatial
from core import Kind
import gen
import oracle
from checks import c07

ID = 'C24'
COMM = 'real'
RULE = ('Scatter plots in two and three dimensions (sets, either side of discretizations, all pairs or '
        'triplets of coordinates; selections, colours given or named, reference points), data domains, Voronoi '
        'plots, marginal histograms and densities; every figure is recorded when it is saved, nothing is '
        'drawn to disk. Several plots follow one another. Non-trivial: more than one sample is shown.')
REQUIRE = ['figures', 'scatter_2D', 'scatter_3D', 'multi', 'rhoD', 'domains', 'voronoi_1D', 'voronoi_2D',
           'cells_2D', 'marginals_1D', 'marginals_2D', 'densities', 'references', 'selected', 'named_colors',
           'refusals', 'not_saved', 'repeated', 'radii_colors', 'surfaces', 'contour_points', 'legends',
           'dim_nums', 'some_marginals', 'marginals_of_disc', 'densities_of_disc', 'points_covered', 'named_files',
           'interactive', 'rhoD_of_set', 'polygons_unbounded']
ASSUMPTIONS = ['what a figure shows is read from its artists when it is saved; axis decorations other than '
               'coordinate labels and reference markers are not judged']


class Shot(object):
    pass


def setup():
    global S, D, P, V, plt, shots
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    import matplotlib.figure
    import bet.sample as S
    global spatial
    import scipy.spatial as spatial
    import bet.postProcess.plotDomains as D
    import bet.postProcess.plotP as P
    import bet.postProcess.plotVoronoi as V
    c07.setup()
    shots = []
    drawn = [0]

    def savefig(fig, fname, *a, **k):
        drawn[0] += 1
        if drawn[0] % 9 == 0:        # the rest of what saving does: lay out and render
            fig.canvas.draw()
        shots.append(shoot(fig, fname))
    matplotlib.figure.Figure.savefig = savefig
    contour = matplotlib.axes.Axes.contour

    def recorded(ax, *a, **k):
        cs = contour(ax, *a, **k)
        ax.verif_contours = (np.array(cs.levels, float),
                             [[np.array(q, float) for q in seg] for seg in cs.allsegs])
        return cs
    matplotlib.axes.Axes.contour = recorded
    plt.show = lambda *a, **k: shots.append(shoot(plt.gcf(), None))


def shoot(fig, name):
    s = Shot()
    # matplotlib itself adds its default extension to a name without one
    s.name = name if name is None or os.path.splitext(str(name))[1] else str(name) + '.png'
    ax = s.ax = fig.axes[0]
    s.xlabel, s.ylabel = ax.get_xlabel(), ax.get_ylabel()
    s.zlabel = ax.get_zlabel() if hasattr(ax, 'get_zlabel') else None
    s.scatter, s.segments = [], []
    for c in ax.collections:
        t = type(c).__name__
        if t == 'Path3DCollection':
            s.scatter.append((np.column_stack([np.array(o, float) for o in c._offsets3d]), arr(c)))
        elif t == 'PathCollection':
            s.scatter.append((np.array(c.get_offsets(), float), arr(c)))
        elif t == 'LineCollection':
            s.segments.append(np.array(c.get_segments(), float))
    s.regions = np.vstack([np.zeros((0, 2))] + [q.vertices for c in ax.collections if 'ContourSet' in type(c).__name__
                                                for q in c.get_paths() if len(q.vertices)])
    s.lines = [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_label()) for l in ax.lines]
    s.title = ax.get_title()
    s.limits = list(ax.get_xlim()) + list(ax.get_ylim())
    s.contours = getattr(ax, 'verif_contours', None)
    s.surfaces = [np.array(c._vec[:3], float).T for c in ax.collections
                  if type(c).__name__ == 'Poly3DCollection' and getattr(c, '_vec', None) is not None]
    s.images = [(np.array(i.get_array(), float), list(i.get_extent()), i.get_clim()) for i in ax.images]
    s.patches = [(np.array(p.get_xy(), float), p.get_facecolor()) for p in ax.patches if hasattr(p, 'get_xy') and
                 np.ndim(p.get_xy()) == 2]
    return s


def arr(c):
    a = c.get_array()
    return None if a is None else np.array(a, float)


def take():
    r = list(shots)
    del shots[:]
    return r


def fresh(ctx):
    plt.close('all')
    take()


def folder():
    return tempfile.mkdtemp(prefix='verif-c24-') + os.sep


def check_scatter(ctx, shot, pts, color, ref, key):
    ctx.ev('figures')
    ctx.check(len(shot.scatter) >= 1, key + ':nothing-shown')
    got, c = shot.scatter[0]
    ctx.close(got, pts, key + ':points', rtol=1e-12, atol=0)
    if color is not None:
        ctx.check(c is not None, key + ':no-colors')
        ctx.close(c, color, key + ':colors', rtol=1e-12, atol=0)
    if ref is None:
        ctx.check(len(shot.scatter) == 1, key + ':extra-points', shown=[len(q[0]) for q in shot.scatter])
    else:
        ctx.check(len(shot.scatter) == 2, key + ':reference-missing')
        ctx.close(shot.scatter[1][0], np.atleast_2d(ref), key + ':reference', rtol=1e-12, atol=0)
        ctx.ev('references')


def make_set(rng, dim, n):
    dom = gen.domain(rng, dim)
    s = S.sample_set(dim)
    x = gen.points(rng, n, dom, 'uniform')
    s.set_values(x.copy())
    ref = None
    if rng.randint(2):
        ref = gen.points(rng, 1, dom, 'uniform')[0]
        s.set_reference_value(ref.copy())
    return s, x, ref


def named_color(ctx, rng, s, x, kw):
    """Colours by the name of one of the arrays of the set."""
    n = len(x)
    what = rng.randint(5)
    col = rng.gamma(1.0, size=n)
    ctx.ev('named_colors')
    if what == 0:
        s.set_volumes(col.copy())
        kw['color'] = "volumes"
    elif what == 1:
        s.set_probabilities(col.copy())
        kw['color'] = "probabilities"
    elif what == 2:
        s.set_error_id(col.copy())
        kw['color'] = ['error_id', 'error id'][rng.randint(2)]
    else:
        norm = what == 4
        s.set_domain(np.stack([x.min(axis=0) - 1, x.max(axis=0) + 1], axis=1))
        s.estimate_radii(n_mc_points=200, normalize=norm)
        kw['color'] = 'normalized radii' if norm else 'radii'
        col = getattr(s, '_normalized_radii' if norm else '_radii')
        ctx.ev('radii_colors')
    # a name is a name wherever the string comes from
    kw['color'] = ''.join(list(kw['color']))
    return col


def case_scatter(ctx, rng):
    fresh(ctx)
    for rnd in range(rng.randint(1, 3)):
        if rnd:
            ctx.ev('repeated')
        dim = rng.randint(2, 4)
        n = gen.size(rng, 1, 20, 200, 0.05)
        s, x, ref = make_set(rng, dim, n)
        kw, nos, col = {}, np.arange(n), None
        if rng.randint(2):
            nos = rng.choice(n, rng.randint(1, n + 1), replace=False)
            kw['sample_nos'] = nos.copy() if rng.randint(2) else [int(i) for i in nos]
            ctx.ev('selected')
        if rng.randint(2):
            col = rng.gamma(1.0, size=n)
            kw['color'] = col.copy() if rng.randint(2) else col.copy()
        if rng.randint(3) == 0:
            ref = x[rng.randint(n)] + 0.1
            kw['ref_sample'] = ref.copy()
        save = bool(rng.randint(4))
        if not save or rng.randint(2):
            kw['save'] = save
        name = 'pic%d' % rng.randint(99)
        fold = ['', './', 'run.%d/' % rng.randint(9)][rng.randint(3)]
        kw['filename'] = fold + name
        ext = '.png'
        how = rng.randint(4)
        if how == 0:
            ext = kw['file_extension'] = ['.pdf', '.svg'][rng.randint(2)]
        elif how == 1:
            kw['filename'], ext = kw['filename'] + '.pdf', '.pdf'
        ctx.ev('named_files')
        side = rng.randint(3)
        if side == 0:
            fn, obj = [D.scatter_2D, D.scatter_3D][dim - 2], s
        else:
            other, _, _ = make_set(rng, rng.randint(1, 4), n)
            obj = S.discretization(*((s, other) if side == 1 else (other, s)))
            fn = [[D.scatter_2D_input, D.scatter_2D_output], [D.scatter_3D_input, D.scatter_3D_output]][dim - 2][
                side - 1]
            if rng.randint(2):
                col = named_color(ctx, rng, s, x, kw)
        inter = rng.randint(4) == 0
        if inter:
            kw['interactive'] = True
            ctx.ev('interactive')
        ctx.describe(dim=dim, n=n, call=fn.__name__, arguments=kw)
        ctx.call(fn.__name__, fn, obj, **kw)
        got = take()
        seen = [g for g in got if g.name is None]
        got = [g for g in got if g.name is not None]
        ctx.check(len(seen) == int(inter), 'scatter:shown', shown=len(seen), asked=inter)
        if inter:
            check_scatter(ctx, seen[0], x[nos], None if col is None else col[nos], ref, 'scatter-shown')
            plt.close('all')
        ctx.check(len(got) == (1 if save else 0), 'scatter:saved', figures=len(got))
        ctx.ev('scatter_%dD' % dim)
        if save:
            check_scatter(ctx, got[0], x[nos], None if col is None else col[nos], ref, 'scatter')
            ctx.check(os.path.normpath(str(got[0].name)) == os.path.normpath(fold + name + ext), 'scatter:name',
                      name=got[0].name, wanted=fold + name + ext)
        else:
            ctx.ev('not_saved')
        ctx.equal(s.get_values(), x, 'scatter:values-changed')
        ctx.note(x, nos, nontrivial=len(nos) > 1)


def pairs_of(got, names):
    """Figures by the coordinates their names end with."""
    out = {}
    for g in got:
        out.setdefault(os.path.basename(str(g.name)), []).append(g)
    return out


def case_multi(ctx, rng):
    fresh(ctx)
    dim, n = rng.randint(2, 5), gen.size(rng, 2, 15, 150, 0.05)
    s, x, _ = make_set(rng, dim, n)
    kw, col, ref = {}, None, None
    f = folder()
    try:
        if rng.randint(2):
            col = rng.gamma(1.0, size=n)
            kw['color'] = col.copy()
        if rng.randint(2):
            ref = x[0] + 0.1
            kw['ref_sample'] = ref.copy()
        show = [None, int(rng.randint(dim)), 'all', 'ALL'][rng.randint(4)]
        if show is not None:
            kw['showdim'] = show
        side = rng.randint(3)
        if side == 0:
            fn, obj = D.scatter_2D_multi, s
        else:
            other, _, _ = make_set(rng, rng.randint(1, 4), n)
            obj = S.discretization(*((s, other) if side == 1 else (other, s)))
            fn = [D.scatter_2D_multi_input, D.scatter_2D_multi_output][side - 1]
            if rng.randint(2):
                col = named_color(ctx, rng, s, x, kw)
        ctx.describe(dim=dim, n=n, call=fn.__name__, showdim=show)
        ext, sub = '.png', ['new', 'new.1'][rng.randint(2)] + os.sep
        if rng.randint(3) == 0:
            ext = kw['file_extension'] = '.pdf'
        ctx.call(fn.__name__, fn, obj, img_folder=f + sub, filename='m', **kw)
        got = take()
        for g in got:
            ctx.check(os.path.dirname(str(g.name)) == os.path.normpath(f + sub), 'multi:folder', name=g.name)
        if isinstance(show, str):
            want = [(i, j) for i in range(dim) for j in range(i + 1, dim)]
        else:
            want = [(show or 0, i) for i in range(dim)]
        named = pairs_of(got, None)
        for (i, j) in want:
            name = 'm_d%d_d%d%s' % (i + 1, j + 1, ext)
            if i == j and name not in named:
                continue
            ctx.check(len(named.get(name, [])) == 1, 'multi:missing', wanted=name, got=sorted(named))
            g = named.pop(name)[0]
            check_scatter(ctx, g, x[:, [i, j]], col, None if ref is None else ref[[i, j]], 'multi')
            ctx.check('{%d}' % (i + 1) in g.xlabel and '{%d}' % (j + 1) in g.ylabel, 'multi:labels',
                      labels=(g.xlabel, g.ylabel), coordinates=(i + 1, j + 1))
        ctx.check(not named, 'multi:unasked', figures=sorted(named))
        ctx.ev('multi')
    finally:
        shutil.rmtree(f)
    ctx.note(x, kw)


def case_rhod(ctx, rng):
    fresh(ctx)
    n = gen.size(rng, 2, 15, 150, 0.05)
    di, do = rng.randint(2, 5), rng.randint(2, 5)
    a, xa, ra = make_set(rng, di, n)
    b, xb, rb = make_set(rng, do, n)
    flag = ['input', 'output'][rng.randint(2)]

    def rho(q):
        return np.exp(-np.sum(q ** 2, axis=1) / (1 + np.sum(xb ** 2)))
    kw, col = {}, np.ones(n)
    if rng.randint(3):
        kw['rho_D'] = rho
        col = rho(xb)
    s, x, ref = (a, xa, ra) if flag == 'input' else (b, xb, rb)
    dim = x.shape[1]
    obj = S.discretization(a, b)
    if flag == 'output' and rng.randint(3) == 0:
        obj = b
        ctx.ev('rhoD_of_set')
    ext = '.png'
    if rng.randint(3) == 0:
        ext = kw['file_extension'] = '.pdf'
    save = bool(rng.randint(6))
    if not save:
        kw['save'] = False
    show = None
    if dim > 2:
        show = [2, 3][rng.randint(2)]
        if dim == 3 and show == 3 and rng.randint(2):
            show = None
    if show is not None:
        kw['showdim'] = show
    if rng.randint(2):
        ref = x[0] + 0.5
        kw['ref_sample'] = ref.copy()
    nos = np.arange(n)
    if rng.randint(2):
        nos = rng.choice(n, rng.randint(1, n + 1), replace=False)
        kw['sample_nos'] = nos.copy()
        ctx.ev('selected')
    nums = np.arange(1, dim + 1)
    proj = not (dim == 2 or (dim == 3 and show != 2))
    if rng.randint(3) == 0:
        if proj:     # some of the coordinates
            nums = np.sort(rng.choice(nums, rng.randint(show, dim + 1), replace=False))
        else:        # numbers of the coordinates shown
            nums = np.sort(rng.choice(np.arange(1, 9), dim, replace=False))
        kw['dim_nums'] = nums.copy() if rng.randint(2) else [int(k) for k in nums]
        ctx.ev('dim_nums')
    ctx.describe(dim=dim, n=n, flag=flag, showdim=show, dim_nums=nums)
    ctx.call('scatter_rhoD', D.scatter_rhoD, obj, io_flag=flag, **kw)
    got = take()
    from itertools import combinations
    if not proj:
        want = [tuple(range(dim))]
    else:
        want = list(combinations([int(k) - 1 for k in nums], show))
    if not save:
        ctx.check(not got, 'rhoD:saved-unasked', got=len(got))
        ctx.ev('not_saved')
        ctx.note(xa, xb, flag, show)
        return
    ctx.check(len(got) == len(want), 'rhoD:figures', got=len(got), want=len(want))
    for g, c in zip(sorted(got, key=lambda g: str(g.name)),
                    sorted(want, key=lambda c: 'x'.join(str(k + 1) for k in c)) if proj else want):
        name = flag + '_samples_' + (''.join('x%d' % (k + 1) for k in c) + '_' if proj else '') + 'cs' + ext
        ctx.check(os.path.basename(str(g.name)) == name, 'rhoD:name', name=g.name, wanted=name)
        c = list(c)
        check_scatter(ctx, g, x[nos][:, c], col[nos], None if ref is None else ref[c], 'rhoD')
        for k, lab in zip([k + 1 for k in c] if proj else nums, (g.xlabel, g.ylabel, g.zlabel)):
            ctx.check('{%d}' % k in lab, 'rhoD:labels', label=lab, coordinate=k)
    ctx.ev('rhoD')
    ctx.note(xa, xb, flag, show)


def case_domain(ctx, rng):
    """Data domains: reference points belong to the coordinates shown; saved only when asked."""
    fresh(ctx)
    n, do = gen.size(rng, 6, 20, 150, 0.05), rng.randint(2, 5)
    a, xa, _ = make_set(rng, rng.randint(2, 4), n)
    b, xb, rb = make_set(rng, do, n)
    d = S.discretization(a, b)
    f = folder()
    try:
        Q = None if rb is None else np.atleast_2d(rb)
        kw = {}
        if rng.randint(2):
            Q = xb[:rng.randint(1, 4)] + 0.25
            kw['Q_ref'] = Q.copy()
        ext = '.png'
        if rng.randint(3) == 0:
            ext = kw['file_extension'] = '.pdf'
        names = None
        if do == 2 and rng.randint(2):
            save = bool(rng.randint(2))
            fb = f + ['', 'v.2' + os.sep][rng.randint(2)]
            os.makedirs(fb, exist_ok=True)
            ctx.call('show_data_domain_2D', D.show_data_domain_2D, d, save=save,
                     filenames=[fb + 'a', fb + 'b'], **kw)
            got = take()
            names = [fb + 'a' + ext, fb + 'b' + ext]
            ctx.check(len(got) == (2 if save else 0), 'domain:saved', save=save, figures=len(got))
            if not save:
                ctx.ev('not_saved')
            want = [(0, 1)]
        else:
            show = [None, int(rng.randint(do)), 'all', 'ALL'][rng.randint(4)]
            nums = list(range(do))
            if show is not None:
                kw['showdim'] = show
            if rng.randint(3) == 0 and do > 2:
                nums = sorted(int(i) for i in rng.choice(do, do - 1, replace=False))
                kw['Q_nums'] = list(nums)
            ctx.call('show_data_domain_multi', D.show_data_domain_multi, d, img_folder=f, **kw)
            got = take()
            if isinstance(show, str):
                want = [(i, j) for k, i in enumerate(nums) for j in nums[k + 1:]]
            else:
                want = [(show or 0, i) for i in nums if i != (show or 0)]
            ctx.check(len(got) == 2 * len(want), 'domain:figures', got=len(got), want=2 * len(want))
            names = sum([[f + 'domain_q%d_q%d%s' % (i + 1, j + 1, ext),
                          f + 'q%d_q%d_domain_Q_cs%s' % (i + 1, j + 1, ext)] for i, j in want], [])
        if got:
            by = {os.path.normpath(str(g.name)): g for g in got}
            ctx.check(sorted(by) == sorted(os.path.normpath(k) for k in names), 'domain:names', names=sorted(by), wanted=names)
            got = [by[os.path.normpath(k)] for k in names]
        hull = spatial.ConvexHull(xa[:, :2]).vertices
        for k, (i, j) in enumerate(want):
            for g in got[2 * k:2 * k + 2]:
                # the data of the outermost samples bound what is shown, and nothing but data does
                sc = np.ptp(xb[:, [i, j]], axis=0)
                y, q = g.regions / sc, xb[:, [i, j]] / sc
                ctx.check(len(y) > 2, 'domain:nothing-shown')
                dd = oracle.dist_matrix(y, q, 2)
                ctx.check(bool((dd.min(axis=1) < 1e-6).all()), 'domain:region', coordinates=(i, j))
                ctx.check(bool((dd[:, hull].min(axis=0) < 1e-6).all()), 'domain:region-cut', coordinates=(i, j))
                ctx.ev('figures')
                ctx.check('{%d}' % (i + 1) in g.xlabel.replace('_1', '_{1}') and
                          '{%d}' % (j + 1) in g.ylabel.replace('_2', '_{2}'), 'domain:labels',
                          labels=(g.xlabel, g.ylabel), coordinates=(i, j))
            if got:
                g = got[2 * k + 1]
                pts = np.vstack([p for p, _ in g.scatter if len(p) == 1]) if Q is not None else None
                if Q is not None:
                    ctx.close(pts[-len(Q):], Q[:, [i, j]], 'domain:references', rtol=1e-12, atol=0)
                    ctx.ev('references')
        ctx.ev('domains')
    finally:
        shutil.rmtree(f)
    ctx.note(xa, xb, do)


def voro_set(rng, dim, n):
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'ints', 'micro']))
    s = S.sample_set(dim)
    x = gen.points(rng, n, dom, 'uniform')
    pr = gen.probs(rng, n)
    if rng.randint(3) == 0:
        s.set_values_local(x.copy())
        s.set_probabilities_local(pr.copy())
    else:
        s.set_values(x.copy())
        s.set_probabilities(pr.copy())
    s.set_domain(dom.copy())
    obj = s
    if rng.randint(2):
        o = S.sample_set(1)
        o.set_values(rng.uniform(size=(n, 1)))
        obj = S.discretization(s, o)
    return obj, s, x, pr, dom


def in_convex(xy, q, tol):
    """Which of the points q lie in the convex polygon xy, or within tol of it."""
    e = np.roll(xy, -1, axis=0) - xy
    keep = np.hypot(e[:, 0], e[:, 1]) > tol
    e, a = e[keep], xy[keep]
    side = (e[:, 0] * (q[:, None, 1] - a[:, 1]) - e[:, 1] * (q[:, None, 0] - a[:, 0])) / np.hypot(e[:, 0], e[:, 1])
    return (side >= -tol).all(axis=1) | (side <= tol).all(axis=1)


def case_voronoi(ctx, rng):
    fresh(ctx)
    for rnd in range(rng.randint(1, 3)):
        if rnd:
            ctx.ev('repeated')
        dim = rng.randint(1, 3)
        n = gen.size(rng, 1, 15, 60, 0.05)
        obj, s, x, pr, dom = voro_set(rng, dim, n)
        dens = bool(rng.randint(2))
        kw = {} if dens and rng.randint(2) else {'density': dens}
        ref = None
        if rng.randint(2):
            ref = gen.points(rng, 1, dom, 'uniform')[0]
            if rng.randint(2):
                kw['lam_ref'] = ref.copy()
            else:
                s.set_reference_value(ref.copy())
        labels = None
        if rng.randint(2):
            labels = ['aa', 'bb'][:dim]
            kw['lambda_label'] = list(labels)
        ctx.describe(dim=dim, n=n, density=dens, prob=pr)
        if dim == 1:
            ctx.call('plot_1D_voronoi', V.plot_1D_voronoi, obj, filename='v', **kw)
            got = take()
            ctx.check(len(got) == 1, 'voronoi-1d:saved', figures=len(got))
            order = np.argsort(x[:, 0])
            y = x[order, 0]
            mid = 0.5 * (y[1:] + y[:-1])
            lo, hi = np.append(dom[0, 0], mid), np.append(mid, dom[0, 1])
            h = pr[order] / (hi - lo) if dens else pr[order]
            ctx.check(len(got[0].segments) == 1, 'voronoi-1d:shown', groups=len(got[0].segments))
            seg = np.asarray(got[0].segments[0])
            seg = seg[np.argsort(seg[:, 0, 0], kind='stable')]
            ctx.close(seg, np.array([[[a, c], [b, c]] for a, b, c in zip(lo, hi, h)]), 'voronoi-1d:cells',
                      rtol=1e-9, atol=1e-12 * max(1, np.abs(h).max()))
            ctx.ev('voronoi_1D')
        else:
            vol = rng.gamma(2.0, size=n) + 0.1
            vol /= vol.sum()
            s.set_volumes(vol.copy())
            ctx.call('plot_2D_voronoi', V.plot_2D_voronoi, obj, filename='v', **kw)
            got = take()
            ctx.check(len(got) == 1, 'voronoi-2d:saved', figures=len(got))
            cells = got[0].patches
            ctx.check(len(cells) == n, 'voronoi-2d:cells', shown=len(cells), wanted=n)
            h = pr / vol if dens else pr
            cmap = plt.get_cmap('BuGn')
            own = []
            q = gen.points(rng, 200, dom, 'uniform')
            Dq = oracle.dist_matrix(q, x, 2)
            gap = np.sort(Dq, axis=1)
            sure = gap[:, 1] - gap[:, 0] > 1e-6 * (np.abs(dom).max() + np.ptp(dom)) if n > 1 else np.ones(200, bool)
            for xy, fc in cells:
                xy = np.asarray(xy)
                xy = xy[:-1] if np.allclose(xy[0], xy[-1], rtol=0) else xy
                # the sample whose cell this is: the nearest one to the middle of the (convex) polygon
                i = int(oracle.dist_matrix(xy.mean(axis=0)[None], x, 2)[0].argmin())
                own.append(i)
                c = np.asarray(cmap(h[i] / h.max()))
                ctx.close(fc, c, 'voronoi-2d:color', rtol=0, atol=0.02, cell=i)
                # corners of a cell are nowhere nearer to another sample (by the margin of rounding)
                Dm = oracle.dist_matrix(xy, x, 2)
                sc = np.abs(xy).max() + np.abs(x).max()
                ctx.check(bool((Dm[:, i] <= Dm.min(axis=1) + 1e-6 * sc).all()), 'voronoi-2d:corner', cell=i)
                # and every point of the domain is drawn in the cell of its nearest sample
                mine = q[sure & (Dq.argmin(axis=1) == i)]
                if len(mine):
                    inside = in_convex(xy, mine, 1e-7 * sc)
                    ctx.check(bool(inside.all()), 'voronoi-2d:covered', cell=i, outside=mine[~inside][:2])
                    ctx.ev('points_covered', len(mine))
                ctx.ev('cells_2D')
            ctx.check(sorted(own) == list(range(n)), 'voronoi-2d:one-each', owners=own)
            ctx.ev('voronoi_2D')
        ctx.ev('figures')
        if ref is not None:
            lx, ly, _ = got[0].lines[-1]
            ctx.close([lx[0]] + ([ly[0]] if dim == 2 else []), ref, 'voronoi:reference', rtol=1e-12)
            ctx.ev('references')
        if labels is not None:
            ctx.check(got[0].xlabel == 'aa' and (dim == 1 or got[0].ylabel == 'bb'), 'voronoi:labels',
                      labels=(got[0].xlabel, got[0].ylabel))
        ctx.note(x, pr, dens, nontrivial=n > 1)


def case_polygons(ctx, rng):
    """voronoi_finite_polygons_2d: the polygons are convex, lie in the cells, and reach as far as was asked."""
    n = rng.randint(4, 25)
    dom = gen.domain(rng, 2, rng.choice(['unit', 'shift', 'neg', 'ints', 'micro']))
    x = gen.points(rng, n, dom, 'uniform')
    w = np.ptp(dom, axis=1).max()
    vor = scipy.spatial.Voronoi(x)
    radius = [None, 3.0 * w, 100.0 * w][rng.randint(3)]
    ctx.describe(n=n, radius=radius, x=x)
    regions, verts = ctx.call('voronoi_finite_polygons_2d', V.voronoi_finite_polygons_2d, vor,
                              *([] if radius is None else [radius]))
    verts = np.asarray(verts)
    ctx.check(len(regions) == n, 'polygons:one-each', regions=len(regions), wanted=n)
    ctx.close(verts[:len(vor.vertices)], vor.vertices, 'polygons:vertices-kept', rtol=0, atol=0)
    q = gen.points(rng, 200, dom, 'uniform')
    Dq = oracle.dist_matrix(q, x, 2)
    gap = np.sort(Dq, axis=1)
    sure = gap[:, 1] - gap[:, 0] > 1e-6 * (np.abs(dom).max() + np.ptp(dom))
    unbounded = 0
    for i, r in enumerate(regions):
        xy = verts[list(r)]
        ctx.check(len(xy) >= 3 and bool(np.isfinite(xy).all()), 'polygons:finite', cell=i, corners=xy)
        infinite = -1 in vor.regions[vor.point_region[i]]
        unbounded += infinite
        Dm = oracle.dist_matrix(xy, x, 2)
        sc = np.abs(xy).max() + np.abs(x).max()
        ctx.check(bool((Dm[:, i] <= Dm.min(axis=1) + 1e-6 * sc).all()), 'polygons:corner', cell=i)
        # in order round the cell: as large as the hull of the corners
        z = xy - xy.mean(axis=0)
        area = 0.5 * abs(np.sum(z[:, 0] * np.roll(z[:, 1], -1) - z[:, 1] * np.roll(z[:, 0], -1)))
        try:
            hull = scipy.spatial.ConvexHull(z).volume
        except Exception:
            hull = None
        if hull is not None:
            ctx.close(area, hull, 'polygons:order', rtol=1e-6, atol=1e-9 * np.ptp(z, axis=0).prod(), cell=i)
        if infinite:
            # two rays, cut at the distance asked for
            fin = vor.vertices[[v for v in vor.regions[vor.point_region[i]] if v >= 0]]
            far = verts[[v for v in r if v >= len(vor.vertices)]]
            ctx.check(len(far) == 2, 'polygons:rays', cell=i, rays=len(far))
            if radius is not None:
                d = oracle.dist_matrix(far, fin, 2)
                ctx.check(bool((np.abs(d - radius) <= 1e-6 * sc).any(axis=1).all()), 'polygons:radius', cell=i,
                          distances=d)
        else:
            mine = q[sure & (Dq.argmin(axis=1) == i)]
            if len(mine):
                inside = in_convex(xy, mine, 1e-7 * sc)
                ctx.check(bool(inside.all()), 'polygons:covered', cell=i, outside=mine[~inside][:2])
        ctx.ev('polygons')
    ctx.check(unbounded >= 3, 'polygons:hull', unbounded=unbounded)
    ctx.ev('polygons_unbounded', unbounded)
    ctx.note(x, radius)


def case_marginals(ctx, rng):
    fresh(ctx)
    dim, n = rng.randint(2, 4), rng.randint(2, 30)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'ints', 'micro']))
    s = S.sample_set(dim)
    s.set_values(gen.points(rng, n, dom, 'uniform'))
    s.set_probabilities(gen.probs(rng, n))
    s.set_domain(dom.copy())
    ref, kw = None, {}
    if rng.randint(2):
        ref = gen.points(rng, 1, dom, 'uniform')[0]
        if rng.randint(2):
            kw['lam_ref'] = ref.copy()
        else:
            s.set_reference_value(ref.copy())
    labels = ['{%d}' % (k + 1) for k in range(dim)]
    if rng.randint(3) == 0:
        labels = ['par %s' % c for c in 'uvw'[:dim]]
        kw['lambda_label'] = list(labels)
    ext = '.png'
    if rng.randint(3) == 0:
        ext = kw['file_extension'] = '.pdf'
    obj = s
    if rng.randint(2):
        o = S.sample_set(dim)
        o.set_values(rng.uniform(size=(n, dim)))
        o.set_domain(np.repeat([[7., 9.]], dim, axis=0))
        obj = S.discretization(s, o)
        ctx.ev('marginals_of_disc')
    nb = rng.randint(2, 8, dim) if rng.randint(4) else np.full(dim, rng.choice([10, 20, 35, 60]))
    bins = [np.linspace(dom[i, 0], dom[i, 1], nb[i] + 1) for i in range(dim)]
    wd = [b[1] - b[0] for b in bins]
    some = rng.randint(3) == 0        # of some directions only
    one = dict((i, gen.probs(rng, nb[i])) for i in range(dim) if not some or i == dim - 1 or rng.randint(2))
    ctx.call('plot_1D_marginal_probs', P.plot_1D_marginal_probs, one, bins, obj, filename='h', **kw)
    got = take()
    ctx.check([os.path.basename(g.name) for g in got] == ['h_1D_%d%s' % (i, ext) for i in sorted(one)],
              'marginals-1d:figures', names=[g.name for g in got])
    for i, g in zip(sorted(one), got):
        ctx.close(g.lines[0][1], one[i] / wd[i], 'marginals-1d:density', rtol=1e-9, direction=i)
        ctx.close([g.lines[0][0].min(), g.lines[0][0].max()], dom[i], 'marginals-1d:range', rtol=0,
                  atol=0.6 * wd[i])
        ctx.check(labels[i] in g.xlabel, 'marginals-1d:label', label=g.xlabel)
        ctx.check(len(g.lines) == (1 if ref is None else 2), 'marginals-1d:extra-lines', lines=len(g.lines))
        if ref is not None:
            ctx.close(g.lines[1][0], ref[[i]], 'marginals-1d:reference', rtol=1e-12)
            ctx.ev('references')
        ctx.ev('figures')
        ctx.ev('marginals_1D')
    two = {}
    for i in range(dim):
        for j in range(i + 1, dim):
            if not some or (i, j) == (dim - 2, dim - 1) or rng.randint(2):
                two[(i, j)] = gen.probs(rng, nb[i] * nb[j]).reshape(nb[i], nb[j])
    if some:
        ctx.ev('some_marginals')
    surf = nb.max() < 10 and rng.randint(4) == 0
    ctx.call('plot_2D_marginal_probs', P.plot_2D_marginal_probs, two, bins, obj, filename='h',
             **dict(kw, **({'plot_surface': True} if surf else {})))
    got = take()
    ctx.check(len(got) == len(two) * (2 if surf else 1), 'marginals-2d:figures', figures=len(got))
    for (i, j), g in zip(sorted(two), got):
        img, extent, clim = g.images[0]
        ctx.close(img, two[(i, j)].T / (wd[i] * wd[j]), 'marginals-2d:density', rtol=1e-9)
        ctx.close(extent, list(dom[i]) + list(dom[j]), 'marginals-2d:extent', rtol=1e-12)
        ctx.check(clim[0] <= img.min() + 1e-9 * img.max() and 0.99 * img.max() <= clim[1] <= 2 * img.max(),
                  'marginals-2d:colour-range', got=clim, densities=(img.min(), img.max()))
        if ref is not None:
            ctx.close([g.lines[0][0][0], g.lines[0][1][0]], ref[[i, j]], 'marginals-2d:reference', rtol=1e-12)
        ctx.check(labels[i] in g.xlabel and labels[j] in g.ylabel, 'marginals-2d:labels',
                  labels=(g.xlabel, g.ylabel))
        ctx.check(os.path.basename(g.name) == 'h_2D_%d_%d%s' % (i, j, ext), 'marginals-2d:name', name=g.name)
        ctx.ev('figures')
        ctx.ev('marginals_2D')
    for (i, j), g in zip(sorted(two), got[len(two):]):
        ctx.check(len(g.surfaces) == 1 and len(g.surfaces[0]) > 0, 'surface:shown')
        ctx.check(os.path.basename(g.name) == 'h_surf_%d_%d%s' % (i, j, ext), 'surface:name', name=g.name)
        v = g.surfaces[0]
        a = (v[:, 0] - dom[i, 0]) / wd[i] - 0.5
        b = (v[:, 1] - dom[j, 0]) / wd[j] - 0.5
        ra, rb = np.round(a).astype(int), np.round(b).astype(int)
        ctx.check(bool(np.all(np.abs(a - ra) < 1e-6) and np.all(np.abs(b - rb) < 1e-6)), 'surface:points')
        ctx.check(set(zip(ra, rb)) == set((p, q) for p in range(nb[i]) for q in range(nb[j])), 'surface:grid')
        ctx.close(v[:, 2], two[(i, j)][ra, rb], 'surface:values', rtol=1e-9)
        ctx.ev('surfaces')
    # contours of the same marginals
    opt = dict(kw)
    refs = None
    if rng.randint(2):
        refs = gen.points(rng, 3, dom, 'uniform')
        opt['lam_refs'] = refs.copy()
    lim = dom
    if rng.randint(2):
        lim = np.column_stack([dom[:, 0] - 1, dom[:, 1] + 2])
        opt['plot_domain'] = lim.copy()
    ctx.call('plot_2D_marginal_contours', P.plot_2D_marginal_contours, two, bins, obj, filename='h', **opt)
    got = take()
    ctx.check([os.path.basename(g.name) for g in got] == ['h_2D_contours_%d_%d%s' % (i, j, ext)
                                                          for (i, j) in sorted(two)], 'contours:figures',
              names=[g.name for g in got])
    for (i, j), g in zip(sorted(two), got):
        z = two[(i, j)] / (wd[i] * wd[j])
        ctx.check(g.contours is not None, 'contours:shown')
        seen = 0
        for lev, segs in zip(*g.contours):
            for q in segs:
                if not len(q):
                    continue
                a = (q[:, 0] - dom[i, 0]) / wd[i] - 0.5
                b = (q[:, 1] - dom[j, 0]) / wd[j] - 0.5
                ctx.check(bool(np.all((a > -1e-6) & (a < nb[i] - 1 + 1e-6) & (b > -1e-6) & (b < nb[j] - 1 + 1e-6))),
                          'contours:outside')
                fa = np.clip(np.floor(a), 0, nb[i] - 2).astype(int)
                fb = np.clip(np.floor(b), 0, nb[j] - 2).astype(int)
                u, w = a - fa, b - fb
                val = (z[fa, fb] * (1 - u) * (1 - w) + z[fa + 1, fb] * u * (1 - w) +
                       z[fa, fb + 1] * (1 - u) * w + z[fa + 1, fb + 1] * u * w)
                ctx.close(val, np.full(len(q), lev), 'contours:level', rtol=1e-6, atol=1e-6 * z.max())
                seen += len(q)
        ctx.ev('contour_points', seen)
        inner = [lv for lv in g.contours[0] if z.min() < lv < z.max()]
        ctx.check(seen > 0 or not inner, 'contours:empty')
        pts = ([refs[:, [i, j]]] if refs is not None else []) + ([ref[None, [i, j]]] if ref is not None else [])
        ctx.check(len(g.lines) == len(pts), 'contours:references', lines=len(g.lines))
        for p, l in zip(pts, g.lines):
            ctx.close(np.column_stack(l[:2]), p, 'contours:reference', rtol=1e-12)
        ctx.close(g.limits, list(lim[i]) + list(lim[j]), 'contours:limits', rtol=1e-12)
        ctx.check(labels[i] in g.xlabel and labels[j] in g.ylabel, 'contours:labels', labels=(g.xlabel, g.ylabel))
        ctx.ev('figures')
    ctx.note(dom, nb, *[one[i] for i in sorted(one)])


def case_densities(ctx, rng):
    fresh(ctx)
    dim = rng.randint(1, 4)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'ints', 'micro']))
    sets, want, pure = [], [], []
    inputs = bool(rng.randint(2))
    i = rng.randint(dim)
    initials = bool(rng.randint(3))
    vals = []
    for k in range(rng.randint(1, 4)):
        s = S.sample_set(dim)
        x = gen.points(rng, rng.randint(2, 10), dom, 'uniform')
        s.set_values(x.copy())
        vals.append(x[:, i])
        if rng.randint(3):
            t, p, _, m = c07.measure(ctx, rng, dim, dom)
            s.set_prob_type_init(t)
            s.set_prob_parameters_init(p)
            if initials:
                want.append((m, 'init', k))
        if rng.randint(4):
            t, p, _, m = c07.measure(ctx, rng, dim, dom)
            s.set_prob_type(t)
            s.set_prob_parameters(p)
            want.append((m, 'updated', k))
        if rng.randint(4) == 0:
            s.set_labels(['l%d%d' % (k, j) for j in range(dim)])
        pure.append(s)
        if rng.randint(3) == 0:
            o = S.sample_set(dim)
            o.set_values(rng.uniform(size=x.shape))
            s = S.discretization(s, o) if inputs else S.discretization(o, s)
            ctx.ev('densities_of_disc')
        sets.append(s)
    kw = {}
    if not inputs or rng.randint(2):
        kw['inputs'] = inputs
    lab = pure[0].get_labels()[i] if pure[0].get_labels() is not None else None
    if rng.randint(3) == 0:
        lab = kw['label'] = 'the axis'
    title = ''
    if rng.randint(3) == 0:
        title = kw['title'] = 'the title'
    legend = {}
    if rng.randint(2):
        legend['updated'] = kw['sets_label'] = ['U%d' % k for k in range(len(sets))]
    if rng.randint(2):
        legend['init'] = kw['sets_label_initial'] = ['I%d' % k for k in range(len(sets))]
    if not initials or rng.randint(2):
        kw['initials'] = initials
    num = 1000
    if rng.randint(2):
        num = int(rng.randint(2, 50))
        kw['num_points'] = num
    if rng.randint(2):
        w = dom[i, 1] - dom[i, 0]
        iv = [dom[i, 0] + 0.1237 * w, dom[i, 1] + 0.217 * w]
        kw['interval'] = list(iv)
    else:
        v = np.concatenate(vals)
        d = 0.25 * (v.max() - v.min())
        iv = [v.min() - d, v.max() + d]
    arg = sets if rng.randint(2) else tuple(sets)
    if len(sets) == 1 and rng.randint(2):
        arg = sets[0]
    ctx.call('plot_1d_marginal_densities', lambda: P.plot_1d_marginal_densities(
        arg, i, interactive=False, savefile='d.png', **kw))
    got = take()
    ctx.check(len(got) == 1, 'densities:saved', figures=len(got))
    ls = got[0].lines
    ctx.check(len(ls) == len(want), 'densities:lines', shown=len(ls), wanted=len(want))
    t = np.linspace(iv[0], iv[1], num)
    ctx.check(got[0].title == title, 'densities:title', title=got[0].title)
    if lab is not None:
        ctx.check(got[0].xlabel == lab, 'densities:label', label=got[0].xlabel, want=lab)
    for (lx, ly, name), (m, what, k) in zip(ls, want):
        if what in legend:
            ctx.check(name == legend[what][k], 'densities:legend', got=name, want=legend[what][k])
            ctx.ev('legends')
        ctx.close(lx, t, 'densities:points', rtol=1e-9, atol=1e-9 * (iv[1] - iv[0]))
        e = m(t, i)
        sm = np.isclose(e, m(t + 1e-9 * (iv[1] - iv[0]), i), rtol=1e-4, atol=1e-6 * e.max() + 1e-300) & \
            np.isclose(e, m(t - 1e-9 * (iv[1] - iv[0]), i), rtol=1e-4, atol=1e-6 * e.max() + 1e-300)
        ctx.close(ly[sm], e[sm], 'densities:values', rtol=1e-6, atol=1e-9 * e.max(), which=what)
        ctx.ev('densities')
    ctx.ev('figures')
    plt.close('all')
    ctx.note(dom, i, num, len(want))


def case_refuse(ctx, rng):
    fresh(ctx)
    ctx.ev('refusals')
    s2, s3 = make_set(rng, 2, 4)[0], make_set(rng, 3, 4)[0]
    k = rng.randint(8)
    if k == 0:
        ctx.raises('2d', D.dim_not_matching, D.scatter_2D, s3)
    elif k == 1:
        ctx.raises('3d', D.dim_not_matching, D.scatter_3D, s2)
    elif k == 2:
        f = [D.scatter_2D_input, D.scatter_2D_output, D.scatter_3D_input, D.scatter_3D_output,
             D.scatter_2D_multi_input, D.scatter_2D_multi_output, D.show_data_domain_2D][rng.randint(7)]
        ctx.raises('discretization', D.bad_object, f, s2)
    elif k == 3:
        f = [D.scatter_2D, D.scatter_3D, D.scatter_2D_multi, D.scatter_rhoD][rng.randint(4)]
        ctx.raises('set', D.bad_object, f, [3, None, 'x'][rng.randint(3)])
    elif k == 4:
        ctx.raises('voronoi', V.bad_object, [V.plot_1D_voronoi, V.plot_2D_voronoi][rng.randint(2)], 3)
    elif k == 5:
        ctx.raises('voronoi-dim', V.dim_not_matching, *([(V.plot_1D_voronoi, s2), (V.plot_2D_voronoi, s3)][
            rng.randint(2)]))
    elif k == 6:
        ctx.raises('voronoi-prob', V.missing_attribute, V.plot_2D_voronoi, s2)
    else:
        ctx.raises('densities', P.bad_object, P.plot_1d_marginal_densities, [s2, 3], 0)
    ctx.note(k, rng.randint(1 << 30))


KINDS = [Kind('scatter', case_scatter, 160, 2500), Kind('multi', case_multi, 100, 1500), Kind('rhod', case_rhod, 160, 2400),
         Kind('domain', case_domain, 60, 1000), Kind('voronoi', case_voronoi, 120, 2000),
         Kind('polygons', case_polygons, 60, 1500),
         Kind('marginals', case_marginals, 50, 800), Kind('densities', case_densities, 80, 1500),
         Kind('refuse', case_refuse, 40, 150)]
