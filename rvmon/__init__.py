"""Runtime monitors for ArgonneCPAC/dsps."""
