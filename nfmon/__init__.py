"""Runtime monitors for nodefinder."""
