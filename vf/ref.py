"""Independent numpy reference of the documented model, P1 on simplices.

Nothing here uses dolfin or FESTIM: mesh arrays and nodal values come in, rows
of the discrete weak form come out, together with the sum of the magnitudes of
the contributions to each row (used to normalise).
"""
import numpy as np

KB = 8.6173303e-5  # eV/K, as documented


def gauss_simplex(d, n=6):
    """points as barycentric coordinates (nq, d+1), weights summing to 1"""
    g, w = np.polynomial.legendre.leggauss(n)
    g, w = (g + 1) / 2, w / 2
    if d == 0:
        return np.ones((1, 1)), np.ones(1)
    if d == 1:
        return np.stack([1 - g, g], 1), w
    if d == 2:
        pts, ws = [], []
        for a, wa in zip(g, w):
            for b, wb in zip(g, w):
                x, y = a, b * (1 - a)
                pts.append([1 - x - y, x, y])
                ws.append(wa * wb * (1 - a) * 2)
        return np.array(pts), np.array(ws)
    pts, ws = [], []
    for a, wa in zip(g, w):
        for b, wb in zip(g, w):
            for c, wc in zip(g, w):
                x, y, z = a, b * (1 - a), c * (1 - a) * (1 - b * 1.0)
                # collapsed: x=a, y=b(1-a), z=c(1-a)(1-b)
                pts.append([1 - x - y - z, x, y, z])
                ws.append(wa * wb * wc * (1 - a) ** 2 * (1 - b) * 6)
    return np.array(pts), np.array(ws)


class RMesh:
    """X (nv,d), cells (nc,d+1), vol (nc,) tags, facet tags: callable or list of
    (vertex tuple, tag) for exterior facets."""

    def __init__(self, X, cells, vol, ftags, coords="cartesian", nq=6):
        self.X = np.asarray(X, float)
        if self.X.ndim == 1:
            self.X = self.X[:, None]
        self.cells = np.asarray(cells, int)
        self.d = d = self.X.shape[1]
        self.vol = np.asarray(vol, int)
        self.coords = coords
        P = self.X[self.cells]  # nc, d+1, d
        E = P[:, 1:, :] - P[:, :1, :]  # nc,d,d
        det = np.linalg.det(E)
        fact = {1: 1.0, 2: 2.0, 3: 6.0}[d]
        self.K = np.abs(det) / fact
        inv = np.linalg.inv(E)  # columns are gradients of bary 1..d
        g = np.transpose(inv, (0, 2, 1))  # nc, d(bary), d
        self.G = np.concatenate([-g.sum(1, keepdims=True), g], axis=1)
        self.N, self.w = gauss_simplex(d, nq)
        self.Xq = np.einsum("qa,cad->cqd", self.N, P)
        self.W = self.K[:, None] * self.w[None, :]  # nc,nq
        # exterior facets
        count = {}
        for ci, c in enumerate(self.cells):
            for k in range(d + 1):
                key = tuple(sorted(int(v) for j, v in enumerate(c) if j != k))
                count.setdefault(key, []).append((ci, k))
        self.facets = []
        tags = {tuple(sorted(k)): v for k, v in ftags}
        for key, own in count.items():
            if len(own) == 1:
                ci, k = own[0]
                self.facets.append((key, ci, k, tags.get(key, 0)))
        self.Nf, self.wf = gauss_simplex(d - 1, nq)

    # --- cell quantities -------------------------------------------------
    def cg(self, u):
        return np.asarray(u, float)[self.cells]  # nc,d+1

    def q(self, uc):
        return uc @ self.N.T  # nc,nq

    def p2(self, fun):
        """quadratic interpolant of fun(X) in each cell, at the quadrature points"""
        xv = self.X[self.cells]
        out = np.einsum("ca,qa->cq", fun(xv), self.N * (2 * self.N - 1))
        n = xv.shape[1]
        for a in range(n):
            for b in range(a + 1, n):
                out += fun(0.5 * (xv[:, a] + xv[:, b]))[:, None] * (4 * self.N[:, a] * self.N[:, b])[None]
        return out

    def grad(self, uc):
        return np.einsum("ca,cad->cd", uc, self.G)

    def gradmag(self, uc):
        """sum_a |u_a| |grad phi_a|: what the gradient is a difference of"""
        return np.einsum("ca,ca->c", np.abs(uc), np.linalg.norm(self.G, axis=2))

    def mask(self, ids):
        if not isinstance(ids, (list, tuple)):
            ids = [ids]
        return np.isin(self.vol, ids)

    def jac(self):
        """axisymmetric/spherical weight r, r^2 at the quadrature points"""
        r = self.Xq[..., 0]
        return {"cartesian": 1.0 + 0 * r, "cylindrical": r, "spherical": r**2}[
            self.coords
        ]

    def integrate(self, fq, ids=None, weight=False):
        m = np.ones(len(self.cells), bool) if ids is None else self.mask(ids)
        W = self.W * (self.jac() if weight else 1.0)
        return float(np.sum((fq * W)[m]))

    # --- facets ------------------------------------------------------------
    def facet_quad(self, key):
        P = self.X[list(key)]  # d,d
        if self.d == 1:
            meas = 1.0
        elif self.d == 2:
            meas = np.linalg.norm(P[1] - P[0])
        else:
            meas = 0.5 * np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0]))
        return self.Nf @ P, self.wf * meas, self.Nf

    def normal(self, ci, k):
        g = self.G[ci, k]
        return -g / np.linalg.norm(g)


class Rows:
    """accumulates rows and magnitudes; layout 'cg' (nv) or 'dg' (nc, d+1)"""

    def __init__(self, m, layout="cg"):
        self.m, self.layout = m, layout
        n = (len(m.X),) if layout == "cg" else m.cells.shape
        self.R = np.zeros(n)
        self.S = np.zeros(n)
        self.terms = []  # uncancelled contributions, in order

    def add_local(self, L, mask=None):
        """L (nc, d+1)"""
        if mask is not None:
            L = np.where(mask[:, None], L, 0.0)
        self.terms.append(L)
        if self.layout == "cg":
            np.add.at(self.R, self.m.cells, L)
            np.add.at(self.S, self.m.cells, np.abs(L))
        else:
            self.R += L
            self.S += np.abs(L)

    def mass(self, fq, mask=None):
        """+ int f v dx"""
        self.add_local(np.einsum("cq,cq,qa->ca", fq, self.m.W, self.m.N), mask)

    def magnitude(self, mq, mask=None):
        """row magnitude of a diffusive term with flux magnitude mq (nc,nq)"""
        m = self.m
        L = np.einsum("cq,cq,ca->ca", mq, m.W, np.linalg.norm(m.G, axis=2))
        if mask is not None:
            L = np.where(mask[:, None], L, 0.0)
        if self.layout == "cg":
            np.add.at(self.S, m.cells, L)
        else:
            self.S += L

    def diff(self, fluxq, mask=None):
        """+ int flux . grad v dx  with the geometry's weak operator;
        fluxq (nc,nq,d)"""
        m = self.m
        L = np.einsum("cqd,cq,cad->ca", fluxq, m.W, m.G)
        self.add_local(L, mask)
        if m.coords != "cartesian":
            f = {"cylindrical": 1.0, "spherical": 2.0}[m.coords]
            r = m.Xq[..., 0]
            L = -np.einsum("cq,cq,qa->ca", f * fluxq[..., 0] / r, m.W, m.N)
            self.add_local(L, mask)

    def surf(self, func, tags):
        """+ int g v ds(tags), func(Xf, key, Nf) -> values at facet points"""
        for key, ci, k, tag in self.m.facets:
            if tag in tags:
                Xf, wf, Nf = self.m.facet_quad(key)
                g = func(Xf, key, Nf, ci) * wf
                for a, v in enumerate(key):
                    x = float(np.sum(g * Nf[:, a]))
                    self.R[v] += x
                    self.S[v] += abs(x)

    def ratio(self, skip=(), rel=1e-6, glob=1e-8, lo=None, atol=0.0):
        """largest |row| over its tolerance; `lo`: the same rows with a coarse
        quadrature, the difference measures the sensitivity to quadrature"""
        R, S = self.R.copy().ravel(), self.S.ravel()
        tol = rel * S + glob * S.max() + atol
        if lo is not None:
            q = np.zeros_like(self.R)  # the same, without cancellation of terms
            for a, b in zip(self.terms, lo.terms):
                if self.layout == "cg":
                    np.add.at(q, self.m.cells, np.abs(a - b))
                else:
                    q += np.abs(a - b)
            tol = tol + np.maximum(5.0 * np.abs(lo.R.ravel() - R), q.ravel())
        keep = np.ones(R.size, bool)
        if len(skip):
            keep[np.asarray(list(skip), int)] = False
        keep &= tol > 0
        if not keep.any():
            return 0.0, -1
        z = np.abs(R[keep]) / tol[keep]
        i = int(np.argmax(z))
        return float(z[i]), int(np.flatnonzero(keep)[i])


def arr(A0, E, T):
    return A0 * np.exp(-E / KB / T)
