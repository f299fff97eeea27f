from typing import List, Callable
import numpy as np
from . import dx_lists_t, field_t
__author__ = 'Jan Petykiewicz'
functional_matrix = Callable[[field_t], field_t]

def curl_h(dxes: dx_lists_t) -> functional_matrix:
    dxyz_b = np.meshgrid(*dxes[1], indexing='ij')

    def dh(f, ax):
        return (f - np.roll(f, 1, axis=ax)) / dxyz_b[ax]

    def ch_fun(h: field_t) -> field_t:
        e = [dh(h[2], 1) - dh(h[1], 2), dh(h[0], 2) - dh(h[2], 0), dh(h[1], 0) - dh(h[0], 1)]
        return e
    return ch_fun

def curl_e(dxes: dx_lists_t) -> functional_matrix:
    dxyz_a = np.meshgrid(*dxes[0], indexing='ij')

    def de(f, ax):
        return (np.roll(f, -1, axis=ax) - f) / dxyz_a[ax]

    def ce_fun(e: field_t) -> field_t:
        h = [de(e[2], 1) - de(e[1], 2), de(e[0], 2) - de(e[2], 0), de(e[1], 0) - de(e[0], 1)]
        return h
    return ce_fun

def e_full(omega: complex, dxes: dx_lists_t, epsilon: field_t, mu: field_t=None) -> functional_matrix:
    ch = curl_h(dxes)
    ce = curl_e(dxes)

    def op_1(e):
        curls = ch(ce(e))
        return [c - omega ** 2 * e * x for c, e, x in zip(curls, epsilon, e)]

    def op_mu(e):
        curls = ch([y / m for m, y in zip(mu, ce(e))])
        return [c - omega ** 2 * p * x for c, p, x in zip(curls, epsilon, e)]
    if np.any(np.equal(mu, None)):
        return op_1
    else:
        return op_mu

def eh_full(omega: complex, dxes: dx_lists_t, epsilon: field_t, mu: field_t=None) -> functional_matrix:
    ch = curl_h(dxes)
    ce = curl_e(dxes)

    def op_1(e, h):
        return ([c - 1j * omega * p * x for c, p, x in zip(ch(h), epsilon, e)], [c + 1j * omega * y for c, y in zip(ce(e), h)])

    def op_mu(e, h):
        return ([c - 1j * omega * p * x for c, p, x in zip(ch(h), epsilon, e)], [c + 1j * omega * m * y for c, m, y in zip(ce(e), mu, h)])
    if np.any(np.equal(mu, None)):
        return op_1
    else:
        return op_mu

def e2h(omega: complex, dxes: dx_lists_t, mu: field_t=None) -> functional_matrix:
    A2 = curl_e(dxes)

    def e2h_1_1(e):
        return [y / (-1j * omega) for y in A2(e)]

    def e2h_mu(e):
        return [y / (-1j * omega * m) for y, m in zip(A2(e), mu)]
    if np.any(np.equal(mu, None)):
        return e2h_1_1
    else:
        return e2h_mu
