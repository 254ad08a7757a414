import numpy as np
from numpy import linalg as LA


class MotionDataHandler:
    def __init__(self, position=None, velocity=None, attractor=None, sequence_value=None):
        self.position = None if position is None else np.array(position, dtype=float)
        self.velocity = velocity
        self.attractor = attractor
        self.sequence_value = sequence_value

    @property
    def attractor_position(self):
        return self.attractor

    @property
    def X(self):
        # Sequence-information included, i.e., clusters are consecutive
        return np.hstack(
            (self.position, self.velocity, np.asarray(self.sequence_value)[:, None])
        )

    @property
    def num_samples(self):
        return self.position.shape[0]

    n_samples = num_samples

    @property
    def dimension(self):
        return self.position.shape[1]

    dimension_space = dimension

    def get_normalized_data(self):
        data = self.X
        std = np.std(data, axis=0)
        std[std == 0] = 1.0
        return (data - np.mean(data, axis=0)) / std


class HandwrittingHandler(MotionDataHandler):
    """(Synthetic) demonstrations, since the real dataset is not available offline."""

    def __init__(
        self, file_name="2D_Ashape.mat", directory_name=None, n_demos=3, n_samples=60, **kwargs
    ):
        rng = np.random.default_rng(sum(ord(cc) for cc in file_name))
        times = np.linspace(0, 1, n_samples)
        positions, velocities, sequences = [], [], []
        for _ in range(n_demos):
            shift = 0.1 * rng.normal(size=2)
            xx = 6 * (1 - times) + shift[0] * (1 - times)
            yy = 2 * np.sin(np.pi * times) * (1 + shift[1])
            pos = np.vstack((xx, yy)).T
            positions.append(pos)
            velocities.append(np.gradient(pos, times, axis=0))
            velocities[-1][-1] = 0
            sequences.append(times)
        super().__init__(
            position=np.vstack(positions),
            velocity=np.vstack(velocities),
            attractor=np.zeros(2),
            sequence_value=np.hstack(sequences),
        )
