"""Model checking of OpenMDAO. Nothing here runs under MPI, and starting MPI in many processes at once is not reliable: it is left out."""
import sys

for _name in ('mpi4py', 'petsc4py'):
    sys.modules.setdefault(_name, None)
