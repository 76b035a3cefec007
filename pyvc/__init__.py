"""pyvc: a small deductive verifier for the Python of runtimepy (see DESIGN.md)."""
