"""Contracts (preconditions, postconditions, loop templates, frames) on the functions of /repo/src/fcsql."""
