"""sx: a small symbolic execution engine for Python source (see DESIGN.md)."""
