"""C11: sparse matrices equal the sum of the element matrices."""
from vlib.elljobs import *


def run(c):
    ell_model(c)
    exe = c.exe(driver="ell")
    c.judge(ell_jobs(c, exe, bc=False))
