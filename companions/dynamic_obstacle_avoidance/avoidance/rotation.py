def obstacle_avoidance_rotational(*args, **kwargs):
    raise NotImplementedError("Superseded by nonlinear_avoidance.avoidance")
