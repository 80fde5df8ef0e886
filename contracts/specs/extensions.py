"""specification functions written as code: interpreted symbolically like the code under contract"""
import numpy as np


def replaced(cls, halos, threshold):
    """halos at or above the threshold replaced"""
    out = []
    for h in halos:
        if h.mass >= threshold:
            out.append(cls(h))
        else:
            out.append(h)
    return out


def collapsing(halos, ranges, probabilities):
    """indices of the truncated halos that collapse with the probability of the first mass range they are in, by subhalo or not"""
    out = []
    for i, h in enumerate(halos):
        u = np.random.rand()
        if h.mdef == 'TNFW':
            for r, p in zip(ranges[h.is_subhalo], probabilities[h.is_subhalo]):
                if h.mass >= 10 ** r[0] and h.mass < 10 ** r[1]:
                    q = p(h) if callable(p) else p
                    if u <= q:
                        out.append(i)
                    break
    return out


def from_times(halos, bins, means, sigmas, convert):
    """truncated halos converted with a collapse time drawn for the mass bin they are in"""
    out = []
    for h in halos:
        t = None
        for i in range(len(bins)):
            if np.log10(h.mass) >= bins[i][0] and np.log10(h.mass) < bins[i][1]:
                t = 10 ** means[i] if sigmas is None else 10 ** np.random.normal(means[i], sigmas[i])
                break
        out.append(convert(h, t) if h.mdef in ['TNFW', 'NFW'] else h)
    return out


def from_cross_sections(halos, bins, logs, time, convert):
    """truncated halos converted with the collapse time for the cross section of the mass bin they are in"""
    out = []
    for h in halos:
        c = None
        for i in range(len(bins)):
            if np.log10(h.mass) >= bins[i][0] and np.log10(h.mass) < bins[i][1]:
                c = 10 ** logs[i]
                break
        rhos, rs, _ = h.nfw_params
        t = time(rhos, rs, c)
        out.append(convert(h, t) if h.mdef in ['TNFW', 'NFW'] else h)
    return out


def each(halos, convert):
    return [convert(h) for h in halos]


def some(halos, wanted, convert):
    return [convert(h) if i in wanted else h for i, h in enumerate(halos)]


def seeds(halos, planes, f, ratio, smallest, largest, kpc_per_arcsec, populate, hole):
    """black holes in halos, uniform in the disk inside the scale radius, and at the positions of unresolved halos"""
    out = []
    for h in halos:
        if np.random.rand() > f:
            continue
        m = min(10 ** largest, h.mass * 10 ** ratio)
        rs = h.nfw_params[1] / kpc_per_arcsec(h.z)
        t = np.random.uniform(0, 2 * np.pi)
        r = np.sqrt(np.random.uniform(0, rs ** 2))
        x, y = h.x + r * np.cos(t), h.y + r * np.sin(t)
        if m > 10 ** smallest:
            out.append(hole(m, x, y, h.z, np.random.rand()))
    for z, dz in planes:
        for mass, x, y in populate(z, dz):
            m = min(10 ** largest, mass * 10 ** ratio)
            if m > 10 ** smallest:
                out.append(hole(m, x, y, z, np.random.rand()))
    return out


def clusters(center, radius, n, mean, scatter, cluster):
    """log-normal masses, uniform in the disk around a centre"""
    n = np.random.poisson(n)
    if n > 0:
        m = 10 ** np.random.normal(mean, scatter, n)
        t = np.random.uniform(0, 2 * np.pi, n)
        r = np.sqrt(np.random.uniform(0, radius ** 2, n))
        x, y = center[0] + r * np.cos(t), center[1] + r * np.sin(t)
        return [cluster(np.random.rand(), m[i], x[i], y[i]) for i in range(n)]
    return []


def clusters_around(centers, *a):
    return [clusters(c, *a) for c in centers]


def cluster_options(mass, slope, dslope, size, dsize):
    g = np.random.uniform(slope - dslope, slope + dslope)
    core = np.random.uniform(size - dsize, size + dsize) * (mass / 10 ** 5) ** (1 / 3)
    return {'gamma': g, 'gc_size_pc': 20.0 * core, 'gc_concentration': 20.0}


def wave_interference(shape, args, area, kpc_per_arcsec, size, width, amplitude, largest, scale, rescale, halo):
    """Gaussian fluctuations in a ring, in an elliptical ring or uniform in disks around images; None if there are none"""
    n = np.random.poisson(scale * area / (np.pi * size ** 2))
    if n == 0:
        return None
    if rescale and n > largest:
        amplitude = amplitude / np.sqrt(n / largest)
        n = int(largest)
    s = np.abs(np.random.normal(size / kpc_per_arcsec, width / kpc_per_arcsec, n))
    k = np.random.normal(0, amplitude, n)
    t = np.random.uniform(0, 2 * np.pi, n)
    if shape == 'ring':
        r = args['rmin'] + np.sqrt(np.random.uniform(0, 1, n)) * (args['rmax'] - args['rmin'])
        x, y = r * np.cos(t), r * np.sin(t)
    else:
        a = args['amin'] + np.sqrt(np.random.uniform(0, 1, n)) * (args['amax'] - args['amin'])
        b = args['bmin'] + np.sqrt(np.random.uniform(0, 1, n)) * (args['bmax'] - args['bmin'])
        c, d = np.cos(args['angle']), np.sin(args['angle'])
        u, v = a * np.cos(t), b * np.sin(t)
        x, y = u * c - v * d, u * d + v * c
    amp = 2 * np.pi * s ** 2 * k
    return [halo(amp[i], s[i], x[i], y[i], np.random.rand()) for i in range(n)]


def around_images(args, area, kpc_per_arcsec, size, width, amplitude, largest, scale, rescale, halo):
    m = len(args['x_images'])
    n = np.random.poisson(scale * area / (np.pi * size ** 2), m)
    n = [n[i] for i in range(m)]
    if all([q == 0 for q in n]):
        return None
    if rescale and sum(n) / m > largest:
        amplitude = amplitude / np.sqrt(sum(n) / m / largest)
        n = [int(largest)] * m
    out = [[], [], [], []]
    for i in range(m):
        s = np.abs(np.random.normal(size / kpc_per_arcsec, width / kpc_per_arcsec, n[i]))
        k = np.random.normal(0, amplitude, n[i])
        t = np.random.uniform(0, 2 * np.pi, n[i])
        r = np.sqrt(np.random.uniform(0, args['aperture'] ** 2, n[i]))
        for q, v in zip(out, (2 * np.pi * s ** 2 * k, s, args['x_images'][i] + r * np.sin(t), args['y_images'][i] + r * np.cos(t))):
            q.extend(v)
    amp, s, x, y = out
    return [halo(amp[i], s[i], x[i], y[i], np.random.rand()) for i in range(len(amp))]
