"""Small synthetic stand-ins for the datasets the example commands read."""
import numpy as np


def poisson(seed=1, n=14, sensors=6):
    r = np.random.RandomState(seed)
    lam = r.uniform(-4, 0, (n, 2))
    xy = r.uniform(0, 1, (sensors, 2))

    def model(a):
        return np.stack([np.outer(a[:, 0], np.sin(np.pi * xy[:, 0]) * (1 - xy[:, 1])),
                         np.outer(a[:, 1], xy[:, 1] * (1 - xy[:, 0]))]).sum(axis=0) / 4

    g = np.linspace(0, 1, 7)
    mesh = np.array([(x, y) for x in g for y in g])
    return {
        "lam": lam, "data": model(lam) + 0.01 * r.normal(size=(n, sensors)),
        "true_vals": model(np.array([[-3.0, -1.0]])).T, "domain": [(-4, 0), (-4, 0)],
        "sensors": xy, "u": (mesh, -0.5 * mesh[:, 0] * mesh[:, 1]),
    }


def adcirc(seed=1, n=40, t=36):
    r = np.random.RandomState(seed)
    lam = np.stack([r.uniform(0.0335, 0.1005, n), r.uniform(0.00125, 0.00375, n)], axis=1)
    times = np.datetime64("2018-01-01T00:00:00", "ns") + np.arange(t) * np.timedelta64(1800, "s")
    h = np.arange(t) / 4.0

    def model(a):
        return np.outer(a[:, 0] / 0.05, np.sin(h)) + np.outer(a[:, 1] / 0.002, np.cos(0.7 * h))

    g = np.linspace(0, 1, 5)
    X, Y = (v.ravel() for v in np.meshgrid(-72.9 + g, 40.4 + g))
    tri = []
    for i in range(4):
        for j in range(4):
            a = 5 * i + j
            tri += [(a, a + 1, a + 5), (a + 1, a + 6, a + 5)]
    return {
        "lam": lam, "data": model(lam) + 0.02 * r.normal(size=(n, t)),
        "true_vals": model(np.array([[0.07, 0.0025]]))[0], "lam_ref": np.array([0.07, 0.0025]),
        "domain": [[0.0335, 0.1005], [0.00125, 0.00375]], "times": times,
        "grid_data": {"triangles": np.array(tri), "X": X, "Y": Y, "XEL": X[:3] + 0.1,
                      "YEL": Y[:3] + 0.1, "wind_speed_mult_0": r.uniform(0, 1, len(X)),
                      "DP": r.uniform(-2, 12, len(X))},
        "wind_speed": [times, r.uniform(0, 20, t)],
    }
