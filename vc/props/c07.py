"""C07 generated Cython kernels"""
from vc.kprops import make
check_case, cases, proofs = make('C07', 'cython')
