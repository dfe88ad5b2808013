"""Runtime monitors for halomod. See DESIGN.md."""
