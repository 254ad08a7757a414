"""Stand-in for the `dynamic_obstacle_avoidance` companion package (absent offline)."""
