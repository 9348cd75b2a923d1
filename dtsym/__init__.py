"""dtsym: symbolic execution of real Python code with z3 as the deciding back end."""
