"""pydv -- a small deductive verifier for a subset of Python.

Source text is read from /repo on every run (never copied by hand); contracts
live in side-car modules (/verif/contracts).  See DESIGN.md.
"""
