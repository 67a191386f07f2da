"""pyvc: contract-based deductive verification of Python functions (see DESIGN.md)."""
