"""Rule modules, one per property."""
GROUPS = ["lib", "core", "tsvd", "2dlrf", "car", "time_delay", "egomotion_sensors"]
