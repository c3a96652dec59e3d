"""C12: boundary conditions isolate the boundary unknowns."""
from vlib.elljobs import *


def run(c):
    ell_model(c)
    exe = c.exe(driver="ell")
    c.judge(ell_jobs(c, exe, bc=True))
