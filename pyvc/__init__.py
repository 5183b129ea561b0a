"""pyvc - a small deductive verifier for the Python subset used by building3d.

The functions are taken from /repo's current source (``ast``), symbolically
executed against contracts kept in /verif/contracts and the resulting proof
obligations are discharged by z3 (cvc5 as second opinion).
"""
