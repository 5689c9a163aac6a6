"""Independent reference models (plain numpy, atomic units)."""
import math
import numpy as np
from scipy.special import erfc
from . import gen

AMU = 1822.888486209
HA_MEV = 27211.386245988


def bz_images(d, cache={}):
    inside, sh = gen.ws_images(d['cell'], d['atom_r'], d['scm'], d['origins'], 2, 2)
    return inside, sh


class Model:
    """Reference lattice-dynamical model of a gen.system dict."""

    def __init__(self, d, images=None, fc=None):
        self.d = d
        self.n = len(d['atom_r'])
        self.inside, self.sh = images if images is not None else bz_images(d)
        self.w = 1./np.sqrt(np.repeat(d['atom_mass']*AMU, 3))
        self.fc = d['fc'] if fc is None else fc
        self.recip = 2*math.pi*np.linalg.inv(d['cell']).T
        self.vol = abs(np.linalg.det(d['cell']))
        self._q0 = None
        nim = self.inside.sum(axis=-1)
        assert nim.min() > 0
        self.nim = nim
        self.dipole = d['born'] is not None

    # -- analytic (Fourier) part ------------------------------------------
    def fourier(self, q, grad=False):
        d = self.d
        R = d['origins'][:, None, :] + (self.sh@d['scm'])[None, :, :]    # nc, T, 3
        ph = np.exp(2j*math.pi*(R@q))                                   # nc, T
        s = np.einsum('cijt,ct->cij', self.inside.astype(float), ph)/self.nim
        f = self.fc.reshape(len(R), self.n, 3, self.n, 3)
        D = np.einsum('cij,ciajb->iajb', s, f).reshape(3*self.n, 3*self.n)
        if not grad:
            return D
        Rc = R@d['cell']
        g = 1j*np.einsum('cijt,ct,ctx->cijx', self.inside.astype(float), ph, Rc)/self.nim[..., None]
        G = np.einsum('cijx,ciajb->iajbx', g, f).reshape(3*self.n, 3*self.n, 3)
        return D, G

    # -- dipole-dipole ------------------------------------------------------
    def _ewald_bare(self, q, gamma):
        """C(q) without Born charges and without the kappa=kappa' constant."""
        d = self.d
        eps, cell, r = d['eps'], d['cell'], d['atom_r']
        ie, de = np.linalg.inv(eps), np.linalg.det(eps)
        lam = 1.7*math.sqrt(math.pi)/self.vol**(1/3)*de**(1/6)/math.sqrt(np.mean(np.linalg.eigvalsh(eps)))
        lam = max(lam, .25)
        rmax = 6.4/lam*math.sqrt(np.max(np.linalg.eigvalsh(eps)))
        gmax = 2*lam*6.4/math.sqrt(np.min(np.linalg.eigvalsh(eps)))
        nr = [int(math.ceil((rmax + np.linalg.norm(cell, axis=1).sum())*np.linalg.norm(self.recip[i])/(2*math.pi)))
              for i in range(3)]
        ng = [int(math.ceil((gmax + np.linalg.norm(self.recip, axis=1).sum())*np.linalg.norm(cell[i])/(2*math.pi)))
              for i in range(3)]
        R = np.array(np.meshgrid(*[np.arange(-x, x+1) for x in nr], indexing='ij')).reshape(3, -1).T
        G = np.array(np.meshgrid(*[np.arange(-x, x+1) for x in ng], indexing='ij')).reshape(3, -1).T
        K = (G + q)@self.recip
        kek = np.einsum('ij,jk,ik->i', K, eps, K)
        if gamma:
            keep = G.any(axis=1)
            K, kek, G = K[keep], kek[keep], G[keep]
        sel = kek < (2*lam*6.4)**2
        K, kek = K[sel], kek[sel]
        wk = 4*math.pi/self.vol*np.exp(-kek/(4*lam*lam))/kek
        C = np.zeros((self.n, 3, self.n, 3), complex)
        rc = r@cell
        for i in range(self.n):
            for j in range(self.n):
                ph = np.exp(1j*(K@(rc[i] - rc[j])))
                C[i, :, j, :] = np.einsum('g,ga,gb->ab', wk*ph, K, K)
                v = R@cell + rc[j] - rc[i]
                D2 = np.einsum('ij,jk,ik->i', v, ie, v)
                s = (D2 > 1e-12) & (D2*lam*lam < 42.)
                v2, Rs = v[s], R[s]
                y = lam*np.sqrt(D2[s])
                De = lam*(v2@ie)
                a = (3*erfc(y)/y**3 + 2/math.sqrt(math.pi)*np.exp(-y*y)*(3/y**2 + 2))/y**2
                b = erfc(y)/y**3 + 2/math.sqrt(math.pi)*np.exp(-y*y)/y**2
                p = np.exp(2j*math.pi*(Rs@q))
                H = np.einsum('g,ga,gb->ab', p*a, De, De) - ie*np.sum(p*b)
                C[i, :, j, :] -= lam**3/math.sqrt(de)*H
        return C

    def dd(self, q):
        Z = self.d['born']
        qn = q - np.rint(q)
        gamma = bool(np.sum(np.abs(qn)) < 1e-15)
        # phases: evaluate at the reduced wavevector (cell-origin gauge is G-periodic)
        C = np.einsum('iax,ixjy,jby->iajb', Z, self._ewald_bare(qn, gamma), Z)
        if self._q0 is None:
            C0 = np.einsum('iax,ixjy,jby->iajb', Z, self._ewald_bare(np.zeros(3), True), Z)
            q0 = np.einsum('iajb->iab', C0)
            self._q0 = .5*(q0 + q0.transpose(0, 2, 1))
        for i in range(self.n):
            C[i, :, i, :] -= self._q0[i]
        return C.reshape(3*self.n, 3*self.n)

    def na(self, qdir):
        """Non-analytic term for fractional direction qdir."""
        k = np.asarray(qdir)@self.recip
        z = np.einsum('iab,b->ia', self.d['born'], k).reshape(-1)
        return 4*math.pi/self.vol*np.outer(z, z)/(k@self.d['eps']@k)

    def dynmat(self, q, qdir=None, dipole=None, extra=None):
        q = np.asarray(q, float)
        D = self.fourier(q).astype(complex)
        if self.dipole if dipole is None else (dipole and self.dipole):
            D = D + self.dd(q)
            if qdir is not None:
                D = D + self.na(qdir)
        if extra is not None:
            D = D + extra
        D = D*np.outer(self.w, self.w)
        return D

    def freqs(self, q, qdir=None, **kw):
        D = self.dynmat(q, qdir, **kw)
        D = .5*(D + D.conj().T)
        return signed_sqrt(np.linalg.eigvalsh(D))*HA_MEV


def signed_sqrt(x):
    return np.sign(x)*np.sqrt(np.abs(x))


def w2(freq_mev):
    """signed squared frequency in hartree**2"""
    f = np.asarray(freq_mev)/HA_MEV
    return np.sign(f)*f*f
