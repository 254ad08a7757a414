"""P08: following the multi-obstacle avoider never collides and reaches the attractor."""
import numpy as np
from numpy import linalg as LA

from vt import scenes
from vt.core import Check
from vt.oracle import require

from checks.p06 import run

check = Check(
    "P08",
    rule="closed-loop simulation (Euler, 0.02 s, up to 80 s) in random scenes of 1-3 disjoint trees of up "
    "to 5 components in 2D/3D with linear / spiralling / wavy dynamics; non-trivial: distinct final "
    "state of a run which was deflected",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


@check.sub(quick=32, thorough=400, need=("reached", "deflected"))
def closed_loop(rng, ctx):
    scene = scenes.tree_scene(rng, closed_loop=True)
    start = scenes.free_position(rng, scene.flat, scene.dim, 0.05)
    reached, lowest, deflection, pos = run(scene, start, 4000, ctx, slack=2e-2)
    require(reached, "the motion reaches the attractor", distance=LA.norm(pos - scene.attractor), gamma=lowest, position=pos)
    ctx.count("reached")
    if deflection > 0.1:
        ctx.count("deflected")
        ctx.state(start, pos, lowest)
    ctx.count("close_pass", lowest < 1.2)
    ctx.sample("run", dimension=scene.dim, trees=[len(t) for t in scene.trees], min_gamma=lowest, start=start, end=pos)
