from .plot_obstacle_dynamics import plot_obstacle_dynamics


def plot_obstacles(*args, **kwargs):
    return None


def Simulation_vectorFields(*args, **kwargs):
    return None
