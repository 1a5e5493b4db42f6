"""Property-based checks for kalmankit (see DESIGN.md)."""
