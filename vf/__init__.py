"""Property-based checking framework for caput (see DESIGN.md)."""
