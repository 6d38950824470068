"""C06 generated NumPy kernels"""
from vc.kprops import make
check_case, cases, proofs = make('C06', 'numpy')
