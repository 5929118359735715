"""pyvc: a contract-based deductive verifier for Python functions (forward symbolic execution, z3)."""
