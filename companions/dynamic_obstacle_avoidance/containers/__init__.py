import numpy as np


class BaseContainer:
    def __init__(self, obs_list=None):
        if obs_list is None:
            obs_list = []
        self._obstacle_list = [] if obs_list is None else list(obs_list)

    def __len__(self):
        return len(self._obstacle_list)

    def __getitem__(self, key):
        return self._obstacle_list[key]

    def __setitem__(self, key, value):
        self._obstacle_list[key] = value

    def __delitem__(self, key):
        del self._obstacle_list[key]

    def __iter__(self):
        return iter(self._obstacle_list)

    def __repr__(self):
        return f"{type(self).__name__}({len(self)})"

    def append(self, value):
        self._obstacle_list.append(value)

    @property
    def number(self):
        return len(self._obstacle_list)

    @property
    def n_obstacles(self):
        return len(self._obstacle_list)

    @property
    def list(self):
        return self._obstacle_list

    @property
    def dimension(self):
        if not len(self):
            return 0
        return self[0].dimension

    def is_collision_free(self, position, in_global_frame=True):
        return all(
            obs.get_gamma(position, in_global_frame=in_global_frame) > 1 for obs in self
        )

    def get_minimum_gamma(self, position):
        return min(obs.get_gamma(position, in_global_frame=True) for obs in self)


class ObstacleContainer(BaseContainer):
    pass
