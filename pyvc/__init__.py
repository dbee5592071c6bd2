"""pyvc: a deductive verifier for Python functions (see DESIGN.md)."""
