from typing import List, Callable, Dict, Any
import numpy as np
from numpy.linalg import norm
import scipy.sparse.linalg
from . import operators

def _scipy_qmr(A: scipy.sparse.csr_matrix, b: np.ndarray, **kwargs) -> np.ndarray:
    """
    Report on our progress
    """
    iter = 0

    def print_residual(xk):
        nonlocal iter
        iter += 1
        if iter % 100 == 0:
            print('Solver residual at iteration', iter, ':', norm(A @ xk - b))
    if 'callback' in kwargs:

        def augmented_callback(xk):
            print_residual(xk)
            kwargs['callback'](xk)
        kwargs['callback'] = augmented_callback
    else:
        kwargs['callback'] = print_residual
    '\n    Run the actual solve\n    '
    x, _ = scipy.sparse.linalg.qmr(A, b, **kwargs)
    return x

def generic(omega: complex, dxes: List[List[np.ndarray]], J: np.ndarray, epsilon: np.ndarray, mu: np.ndarray=None, pec: np.ndarray=None, pmc: np.ndarray=None, adjoint: bool=False, matrix_solver: Callable[..., np.ndarray]=_scipy_qmr, matrix_solver_opts: Dict[str, Any]=None) -> np.ndarray:
    if matrix_solver_opts is None:
        matrix_solver_opts = dict()
    b0 = -1j * omega * J
    A0 = operators.e_full(omega, dxes, epsilon=epsilon, mu=mu, pec=pec, pmc=pmc)
    Pl, Pr = operators.e_full_preconditioners(dxes)
    if adjoint:
        A = (Pl @ A0 @ Pr).H
        b = Pr.H @ b0
    else:
        A = Pl @ A0 @ Pr
        b = Pl @ b0
    x = matrix_solver(A.tocsr(), b, **matrix_solver_opts)
    if adjoint:
        x0 = Pl.H @ x
    else:
        x0 = Pr @ x
    return x0
