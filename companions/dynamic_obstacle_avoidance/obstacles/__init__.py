from ._base import Obstacle
from .ellipse import Ellipse, EllipseWithAxes
from .cuboid import CuboidXd
from .flower import StarshapedFlower
