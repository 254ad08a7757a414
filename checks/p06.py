"""P06: following the local avoiders never collides and reaches the attractor."""
import numpy as np
from numpy import linalg as LA

from vt import scenes
from vt.core import Check
from vt.oracle import finite, require

check = Check(
    "P06",
    rule="closed-loop simulation (Euler, 0.02 s, up to 80 s) in random scenes of 1-4 disjoint convex "
    "obstacles in 2D/3D with linear / spiralling / wavy dynamics; non-trivial: distinct final state "
    "of a run which was deflected",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)

STEP = 0.02


def run(scene, pos, steps, ctx, goal=0.1, slack=1e-2):
    """Monitors one history; returns (reached, minimal gamma, deflection)."""
    lowest, deflection = np.inf, 0.0
    travelled, initial_distance = 0.0, LA.norm(pos - scene.attractor)
    for it in range(steps):
        initial = scene.dynamics.evaluate(pos)
        velocity = scene.func(pos)
        finite(velocity, "velocity is finite along the motion", position=pos)
        require(
            LA.norm(velocity) <= max(LA.norm(initial), 1e-12) * (1 + 1e-6),
            "avoidance does not increase the speed along the motion",
            speed=LA.norm(velocity), initial=LA.norm(initial),
        )
        deflection = max(deflection, LA.norm(velocity - initial))
        pos = pos + velocity * STEP
        gamma = scene.gamma(pos)
        lowest = min(lowest, gamma)
        require(gamma > 1 - slack, "the motion stays outside of the obstacles", gamma=gamma, step=it, position=pos, kind=scene.kind)
        ctx.count("steps")
        if LA.norm(pos - scene.attractor) < goal:
            return True, lowest, deflection, pos
    return False, lowest, deflection, pos


@check.sub(quick=72, thorough=1000, need=("reached", "deflected", "avoid", "evaluate", "sequence"))
def closed_loop(rng, ctx):
    scene = scenes.rotational_scene(rng, closed_loop=True)
    start = scenes.free_position(rng, scene.flat, scene.dim, 0.05)
    reached, lowest, deflection, pos = run(scene, start, 4000, ctx)
    require(
        reached, "the motion reaches the attractor", distance=LA.norm(pos - scene.attractor),
        gamma=lowest, position=pos, kind=scene.kind,
    )
    ctx.count("reached")
    ctx.count(scene.kind)
    if deflection > 0.1:
        ctx.count("deflected")
        ctx.state(start, pos, lowest)
    ctx.count("close_pass", lowest < 1.2)
    ctx.sample(f"run {scene.kind}", dimension=scene.dim, obstacles=len(scene.flat), min_gamma=lowest, start=start, end=pos)
