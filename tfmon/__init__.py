"""Runtime-monitoring machinery for TemplateFitter (see ../DESIGN.md)."""
