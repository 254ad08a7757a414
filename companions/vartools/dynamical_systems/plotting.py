def plot_dynamical_system(*args, **kwargs):
    return None, None


def plot_dynamical_system_quiver(*args, **kwargs):
    return None, None
