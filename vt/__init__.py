"""Runtime-monitoring harness (see DESIGN.md)."""
