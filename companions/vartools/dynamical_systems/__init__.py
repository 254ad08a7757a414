from ._base import DynamicalSystem, allow_max_velocity
from .linear import LinearSystem, ConstantValue
from .circular import CircularStable
from .misc import AxesFollowingDynamics, LocallyRotated, QuadraticAxisConvergence
from .plotting import plot_dynamical_system, plot_dynamical_system_quiver
