"""Reference semantics of the location estimators (property C11).

These functions are never run: they are reduced to normal forms by the same abstract
interpreter as the code and compared with the normal forms of the code's functions.
"""
import numpy as np
from scipy.interpolate import Rbf
from scipy.signal import fftconvolve


def spline(self, coa_map, win=5, upscale=10):
    # node of the maximum, and the window of (win - 1) // 2 nodes around it in the grid
    n = np.array([coa_map.shape[0], coa_map.shape[1], coa_map.shape[2]])
    mx, my, mz = np.unravel_index(np.nanargmax(coa_map), coa_map.shape)
    centre = np.array([mx, my, mz])
    half = (win - 1) // 2
    lo = np.clip(centre - half, 0, n)
    hi = np.clip(centre + half + 1, 0, n)
    gridded = self.lut.index2coord([[mx, my, mz]])[0]
    if not (hi[0] - lo[0] == hi[1] - lo[1] and hi[1] - lo[1] == hi[2] - lo[2]):
        return gridded
    sub = coa_map[lo[0]:hi[0], lo[1]:hi[1], lo[2]:hi[2]]
    a, b, c = sub.shape[0], sub.shape[1], sub.shape[2]
    g = np.meshgrid(np.linspace(0, a - 1, a), np.linspace(0, b - 1, b), np.linspace(0, c - 1, c))
    f = Rbf(g[0].flatten(), g[1].flatten(), g[2].flatten(), sub.flatten(), function="cubic")
    h = np.meshgrid(
        np.linspace(0, a - 1, (a - 1) * upscale + 1),
        np.linspace(0, b - 1, (b - 1) * upscale + 1),
        np.linspace(0, c - 1, (c - 1) * upscale + 1),
    )
    fine = f(h[0].flatten(), h[1].flatten(), h[2].flatten()).reshape(h[0].shape)
    i = np.unravel_index(np.nanargmax(fine), fine.shape)
    # interpolated maximum in nodes of the whole grid
    x = i[0] / upscale + lo[0]
    y = i[1] / upscale + lo[1]
    z = i[2] / upscale + lo[2]
    if abs(mx - x) > half or abs(my - y) > half or abs(mz - z) > half:
        return gridded
    return self.lut.index2coord([[x, y, z]])[0]


def spline_ij(self, coa_map, win=5, upscale=10):
    """the same with both meshes in matrix indexing (equivalent on a cubic window)"""
    n = np.array([coa_map.shape[0], coa_map.shape[1], coa_map.shape[2]])
    mx, my, mz = np.unravel_index(np.nanargmax(coa_map), coa_map.shape)
    centre = np.array([mx, my, mz])
    half = (win - 1) // 2
    lo = np.clip(centre - half, 0, n)
    hi = np.clip(centre + half + 1, 0, n)
    gridded = self.lut.index2coord([[mx, my, mz]])[0]
    if not (hi[0] - lo[0] == hi[1] - lo[1] and hi[1] - lo[1] == hi[2] - lo[2]):
        return gridded
    sub = coa_map[lo[0]:hi[0], lo[1]:hi[1], lo[2]:hi[2]]
    a, b, c = sub.shape[0], sub.shape[1], sub.shape[2]
    g = np.meshgrid(np.linspace(0, a - 1, a), np.linspace(0, b - 1, b), np.linspace(0, c - 1, c), indexing="ij")
    f = Rbf(g[0].flatten(), g[1].flatten(), g[2].flatten(), sub.flatten(), function="cubic")
    h = np.meshgrid(
        np.linspace(0, a - 1, (a - 1) * upscale + 1),
        np.linspace(0, b - 1, (b - 1) * upscale + 1),
        np.linspace(0, c - 1, (c - 1) * upscale + 1),
        indexing="ij",
    )
    fine = f(h[0].flatten(), h[1].flatten(), h[2].flatten()).reshape(h[0].shape)
    i = np.unravel_index(np.nanargmax(fine), fine.shape)
    x = i[0] / upscale + lo[0]
    y = i[1] / upscale + lo[1]
    z = i[2] / upscale + lo[2]
    if abs(mx - x) > half or abs(my - y) > half or abs(mz - z) > half:
        return gridded
    return self.lut.index2coord([[x, y, z]])[0]


def box(n, i, window):
    """True within (window - 1) // 2 nodes of node i, inside a grid of shape n"""
    n = np.array(n)
    i = np.array(i)
    half = (window - 1) // 2
    lo = np.clip(i - half, 0, n)
    hi = np.clip(i + half + 1, 0, n)
    mask = np.zeros(n, dtype=bool)
    mask[lo[0]:hi[0], lo[1]:hi[1], lo[2]:hi[2]] = True
    return mask


def mask3d(self, n, i, window):
    return box(n, i, window)


def gaussian(self, coa_map, thresh=0.0, win=7):
    """maximum of the local Gaussian: -log(coalescence - mean) is fitted by a quadratic
    form in the offsets from the peak node; its stationary point, in grid nodes, is the
    location, the widths along the axes times the node spacing the uncertainty"""
    peak = np.unravel_index(np.nanargmax(coa_map), coa_map.shape)
    inside = np.logical_and(coa_map > thresh, box(coa_map.shape, peak, win))
    ix, iy, iz = np.where(inside)
    level = coa_map - np.nanmean(coa_map)
    axes = [np.arange(n) for n in coa_map.shape]
    x, y, z = [ax[nodes] - p for ax, nodes, p in zip(axes, np.where(inside), peak)]
    terms = np.c_[x * x, y * y, z * z, x * y, x * z, y * z, x, y, z, np.ones(len(ix))].T
    values = -np.log(np.clip(level.astype(np.float64)[ix, iy, iz], 1e-300, np.inf))
    p = np.matmul(values, np.linalg.pinv(terms))
    hess = -np.array([2 * p[0], p[3], p[4],
                      p[3], 2 * p[1], p[5],
                      p[4], p[5], 2 * p[2]]).reshape((3, 3))
    offset = np.matmul(np.linalg.inv(hess), np.array([p[6], p[7], p[8]]))
    form = np.array([p[0], p[3] / 2, p[4] / 2,
                     p[3] / 2, p[1], p[5] / 2,
                     p[4] / 2, p[5] / 2, p[2]]).reshape(3, 3)
    widths = np.linalg.eig(form)[0]
    sigma = np.sqrt(0.5 / np.clip(np.abs(widths), 1e-10, np.inf)) / 2
    node = offset + peak
    return self.lut.index2coord([[node[0], node[1], node[2]]])[0], sigma * self.lut.node_spacing


def covariance(self, coa_map, thresh=0.90, win=None):
    """coalescence-weighted mean and standard deviation of the node coordinates"""
    peak = np.unravel_index(np.nanargmax(coa_map), coa_map.shape)
    if win:
        inside = np.logical_and(coa_map > thresh, box(coa_map.shape, peak, win))
    else:
        inside = np.where(coa_map > thresh, True, False)
    w = coa_map.flatten()
    w[~inside.flatten()] = np.nan
    total = np.nansum(w)
    mesh = np.meshgrid(*[np.arange(n) for n in self.lut.node_count], indexing="ij")
    x, y, z = [g.flatten() * d for g, d in zip(mesh, self.lut.node_spacing)]
    mean = [np.nansum(w * x) / total, np.nansum(w * y) / total, np.nansum(w * z) / total]
    cov = np.zeros((3, 3))
    cov[0, 0] = np.nansum(w * (x - mean[0]) * (x - mean[0])) / total
    cov[1, 1] = np.nansum(w * (y - mean[1]) * (y - mean[1])) / total
    cov[2, 2] = np.nansum(w * (z - mean[2]) * (z - mean[2])) / total
    cov[0, 1] = cov[1, 0] = np.nansum(w * (x - mean[0]) * (y - mean[1])) / total
    cov[0, 2] = cov[2, 0] = np.nansum(w * (x - mean[0]) * (z - mean[2])) / total
    cov[1, 2] = cov[2, 1] = np.nansum(w * (y - mean[1]) * (z - mean[2])) / total
    xyz = self.lut.ll_corner + np.array([mean[0], mean[1], mean[2]])
    return self.lut.coord2grid(xyz, inverse=True)[0], np.diag(np.sqrt(abs(cov)))


def smooth(self, map3d, sgm=0.8, shp=None):
    """convolution with a Gaussian, twice with the map mirrored in between"""
    if shp is None:
        shp = map3d.shape
    kernel = gaussian_3d(shp[0], shp[1], shp[2], sgm)
    once = fftconvolve(map3d, kernel, mode="same")
    once = once[::-1, ::-1, ::-1] / np.nanmax(once)
    twice = fftconvolve(once, kernel, mode="same")
    return twice[::-1, ::-1, ::-1] / np.nanmax(twice)


from quakemigrate.util import gaussian_3d  # noqa: E402


def gaussian_1d(x, a, b, c):
    return a * np.exp(-((x - b) ** 2) / (2 * c**2))


def gaussian_3d_ref(nx, ny, nz, sgm):
    x, y, z = np.meshgrid(
        np.linspace(-(nx - 1) / 2, (nx - 1) / 2, nx),
        np.linspace(-(ny - 1) / 2, (ny - 1) / 2, ny),
        np.linspace(-(nz - 1) / 2, (nz - 1) / 2, nz),
        indexing="ij",
    )
    if np.isscalar(sgm):
        sgm = np.repeat(sgm, 3)
    sx, sy, sz = sgm
    return np.exp(-(x * x) / (2 * sx * sx) - (y * y) / (2 * sy * sy) - (z * z) / (2 * sz * sz))
