"""Runtime-monitoring framework for impurityModel (see DESIGN.md)."""
