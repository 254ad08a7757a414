from vartools.dynamical_systems import (
    DynamicalSystem as Dynamics,
    DynamicalSystem,
    LinearSystem,
    ConstantValue,
    CircularStable,
    QuadraticAxisConvergence,
    AxesFollowingDynamics,
    LocallyRotated,
)


class WavyRotatedDynamics(LinearSystem):
    def __init__(
        self, pose, maximum_velocity=1.0, rotation_frequency=1.0, rotation_power=1.0,
        max_rotation=0.5, **kwargs,
    ):
        super().__init__(attractor_position=pose.position, maximum_velocity=maximum_velocity)
