"""P27: trajectory integration and evaluation metrics of the comparison."""
import contextlib
import copy
import io
import json
import os
import re
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd
from numpy import linalg as LA

from vt import gen
from vt.core import Check
from vt.oracle import close, finite, require

from nonlinear_avoidance.comparison import comparison_multiobstacle_vectorfield as cm
from nonlinear_avoidance.comparison import evaluation_path_following as pf
from nonlinear_avoidance.comparison import evaluation_trajectories as et
from nonlinear_avoidance.comparison import evaluation_trajectories_with_std as es

check = Check(
    "P27",
    rule="random trajectories (2-3 dimensions, with stops), tables of runs and vector fields; "
    "non-trivial: distinct trajectories / tables",
    assumptions=["trajectories have at least three points and do not stand still throughout"],
)


def _trajectory(rng, dim=None, stops=True):
    dim = dim or int(rng.choice([2, 2, 3]))
    number = int(rng.integers(4, 30))
    steps = rng.normal(size=(dim, number)) * rng.choice([0.01, 0.1, 1.0])
    if stops:
        still = rng.uniform(size=number) < rng.choice([0, 0.2])
        still[int(rng.integers(number))] = False
        steps[:, still] = 0
    start = rng.normal(size=(dim, 1)) * rng.choice([0, 2])
    # the stops are exact (cumsum of zeros)
    return np.hstack((start, start + np.cumsum(steps, axis=1)))


def _dynamics(rng, dim):
    mat, off = rng.normal(size=(dim, dim)), rng.normal(size=dim)
    return lambda xx: mat @ xx + off


def _moving(traj):
    delta = traj[:, 1:] - traj[:, :-1]
    keep = [ii for ii in range(delta.shape[1]) if LA.norm(delta[:, ii]) > 0]
    return [(traj[:, ii], delta[:, ii] / LA.norm(delta[:, ii])) for ii in keep]


@check.sub(quick=3000, need=("with_stops",))
def metrics(rng, ctx):
    traj = gen.frozen(_trajectory(rng))
    dim = traj.shape[0]
    dt = float(rng.choice([0.01, 0.1, 1.0]))
    func = _dynamics(rng, dim)
    lib = [et, es][int(rng.integers(2))]
    center, radius = rng.normal(size=dim), float(rng.uniform(0.1, 3))

    value = lib.mean_squared_error_to_path(traj, center, radius)
    model = np.mean([abs((pp - center) @ (pp - center) - radius**2) for pp in traj.T])
    close(value, model, 1e-9 * (1 + model), "distance to the circle")
    require(value >= 0, "distance to the circle is not negative")

    acc = (traj[:, 2:] - 2 * traj[:, 1:-1] + traj[:, :-2]) / dt**2
    model = np.mean(np.sum(acc**2, axis=0))
    close(lib.mean_squared_acceleration(traj, dt), model, 1e-6 * (1 + model), "mean squared acceleration")

    moving = _moving(traj)
    ctx.count("with_stops", len(moving) < traj.shape[1] - 1)
    if len(moving) > 1:
        model = np.mean([v1 @ v2 for (_, v1), (_, v2) in zip(moving[:-1], moving[1:])])
        value = lib.dot_product_acceleration(traj, dt)
        close(value, model, 1e-7, "dot product of consecutive velocities")
        require(-1 - 1e-9 <= value <= 1 + 1e-9, "dot product is normalised")
    model = np.mean([LA.norm(vv - func(pp)) ** 2 for pp, vv in moving])
    close(lib.mean_squared_velocity_deviation(traj, func, dt), model, 1e-7 * (1 + model), "squared deviation of the velocity")
    model = np.mean([vv @ func(pp) / LA.norm(func(pp)) for pp, vv in moving])
    value = lib.dot_product_velocity_deviation(traj, func, dt)
    close(value, model, 1e-7, "dot product with the desired velocity")
    require(-1 - 1e-9 <= value <= 1 + 1e-9, "dot product deviation is normalised")

    vel = lib.normalize_velocities(traj[:, 1:] - traj[:, :-1])
    close(vel, np.array([vv for _, vv in moving]).T, 1e-9, "normalised velocities")
    ctx.state(traj)
    ctx.sample("metrics", trajectory=traj[:, :4], acceleration=lib.mean_squared_acceleration(traj, dt))


@check.sub(quick=500)
def following_the_dynamics_is_perfect(rng, ctx):
    dim = int(rng.choice([2, 3]))
    mat = rng.normal(size=(dim, dim))
    off = rng.normal(size=dim) * 3

    def func(xx):
        vel = mat @ xx + off
        return vel / LA.norm(vel)

    pos = [rng.normal(size=dim)]
    dt = 0.01
    for _ in range(12):
        pos.append(pos[-1] + dt * func(pos[-1]))
    traj = np.array(pos).T
    for lib in (et, es):
        close(lib.mean_squared_velocity_deviation(traj, func, dt), 0, 1e-12, "no deviation when following the dynamics")
        close(lib.dot_product_velocity_deviation(traj, func, dt), 1, 1e-9, "full agreement when following the dynamics")
    angles = np.linspace(0, rng.uniform(1, 6), 20)
    circle = np.array([np.cos(angles), np.sin(angles)]) * 1.5 + off[:2, None]
    close(et.mean_squared_error_to_path(circle, off[:2], 1.5), 0, 1e-9, "no distance on the circle")
    try:
        et.normalize_velocities(np.zeros((2, 4)))
    except ValueError:
        pass
    else:
        require(False, "a trajectory without motion is refused")
    ctx.state(traj)


def _printed(func, evaluators):
    """Rows of a printed table: {label: numbers of each column}"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        func(evaluators)
    rows = {}
    for line in out.getvalue().splitlines():
        cells = line.split(" & ")
        if len(cells) != len(evaluators) + 1:
            continue
        rows[cells[0].strip()] = [
            [float(vv) for vv in re.findall(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)", cell)] for cell in cells[1:]
        ]
    return rows


def _rows_agree(rows, expected):
    """expected: {label: (list of alternatives of (values for each evaluator), digits)}"""
    for label, (options, digits) in expected.items():
        require(label in rows, "row of the printed table", label=label, rows=list(rows))
        good = False
        for values in options:
            good |= all(
                len(cell) >= len(val) and all(
                    abs(cc - vv) <= 0.51 * 10.0**-digits + 1e-9 * abs(vv) or (np.isnan(cc) and np.isnan(vv))
                    for cc, vv in zip(cell, val)
                )
                for cell, val in zip(rows[label], values)
            )
        require(good, "values of the printed table", label=label, printed=rows[label], expected=options[0])


@check.sub(quick=40, need=("files", "rows"))
def evaluated_folder(rng, ctx):
    """Average over a folder of stored runs."""
    root = tempfile.mkdtemp(prefix="vt-p27-")
    try:
        it_max = int(rng.integers(8, 20))
        dt = float(rng.choice([0.01, 0.1]))
        with open(os.path.join(root, "comparison_parameters.json"), "w") as handle:
            json.dump(dict(it_max=it_max, conv_margin=1e-2, delta_time=dt), handle)
        data = os.path.join(root, "data")
        os.makedirs(os.path.join(data, "runs"))
        trajs = []
        for ii in range(int(rng.integers(2, 6))):
            traj = _trajectory(rng, dim=2, stops=False)[:, : it_max]
            if rng.integers(2):
                extra = np.cumsum(rng.normal(size=(2, it_max)), axis=1)
                traj = np.hstack((traj, traj[:, -1:] + extra))[:, :it_max]
            np.savetxt(os.path.join(data, "runs", f"t{ii}.csv"), traj.T, delimiter=",")
            trajs.append(np.loadtxt(os.path.join(data, "runs", f"t{ii}.csv"), delimiter=",").T)
        out = {}
        for lib in (et, es):
            ev = lib.TrajectoryEvaluator(data_folder="runs", data_path=data)
            with contextlib.redirect_stdout(io.StringIO()):
                ev.run()
                lib.print_table([ev, ev])
            out[lib] = ev
            full = sum(tt.shape[1] >= it_max for tt in trajs)
            require(ev.n_runs == len(trajs), "number of runs")
            require((ev.n_converged, ev.n_local_minima) == (full, len(trajs) - full), "converged and stuck runs")
            close(
                ev.dist_to_path,
                np.mean([np.mean(np.abs(np.sum(tt**2, axis=0) - 4.0)) for tt in trajs]),
                1e-7, "average distance to the path",
            )
            accs = [
                np.mean(np.sum(((tt[:, 2:] - 2 * tt[:, 1:-1] + tt[:, :-2]) / dt**2) ** 2, axis=0)) for tt in trajs
            ]
            require(abs(ev.squared_acceleration / np.mean(accs) - 1) < 1e-6, "average squared acceleration")
            dots = [np.mean([a[1] @ b[1] for a, b in zip(_moving(tt)[:-1], _moving(tt)[1:])]) for tt in trajs]
            close(ev.dotprod_acceleration, np.mean(dots), 1e-7, "average dot product of the velocities")
            require(-1 - 1e-9 <= ev.dotprod_err_velocity <= 1 + 1e-9, "average agreement is normalised")
            require(ev.squared_error_velocity >= 0, "average error is not negative")
            similar, sim_err = 0.5 * (1 - np.mean(dots)), 0.5 * (1 - ev.dotprod_err_velocity)
            share = [100 * full / len(trajs), 100 * (1 - full / len(trajs))]
            table = {
                "$N^c$": ([[share[:1]] * 2], 0),
                "$N^m$": ([[share[1:]] * 2], 0),
                "$\\Delta R^2$": ([[[ev.dist_to_path]] * 2], 2),
                "$\\Delta v$": ([[[ev.squared_error_velocity]] * 2], 2),
                "$a$": ([[[ev.squared_acceleration]] * 2], 2),
            }
            if lib is et:
                table["$\\langle v \\rangle $"] = ([[[sim_err]] * 2], 2)
            else:
                table["DOTPROD [ref]"] = ([[[ev.dotprod_err_velocity, ev.dotprod_err_velocity_std]] * 2], 2)
                table["NICS [ref]"] = ([[[sim_err, 0.5 * ev.dotprod_err_velocity_std]] * 2], 2)
                table["$a$"] = ([[[np.mean(accs), np.std(accs)]] * 2], 2)
            rows = _printed(lib.print_table, [ev, ev])
            _rows_agree(rows, table)
            # A column per evaluation
            changed = copy.copy(ev)
            for name, value in vars(ev).items():
                if isinstance(value, float) or isinstance(value, np.floating):
                    setattr(changed, name, float(value) * rng.uniform(0.5, 2.0) + rng.uniform(0.1, 0.3))
            changed.n_converged, changed.n_local_minima = ev.n_local_minima, ev.n_converged
            single = [_printed(lib.print_table, [item]) for item in (ev, changed)]
            both = _printed(lib.print_table, [ev, changed])
            require(set(both) == set(single[0]) and set(both) == set(single[1]), "rows of the table", rows=list(both))
            for label, cells in both.items():
                for it in range(2):
                    close(cells[it], single[it][label][0], 1e-12, "column of each evaluation", label=label)
            # Only some of the runs
            number = int(rng.integers(1, len(trajs) + 1))
            part = lib.TrajectoryEvaluator(data_folder="runs", data_path=data, n_runs=number)
            with contextlib.redirect_stdout(io.StringIO()):
                part.run()
            require(part.n_runs == number and part.n_converged + part.n_local_minima == number, "limited number of runs")
            chosen = [trajs[int(name[1:-4])] for name in os.listdir(os.path.join(data, "runs"))][:number]
            close(
                part.dist_to_path, np.mean([np.mean(np.abs(np.sum(tt**2, axis=0) - 4.0)) for tt in chosen]),
                1e-7, "average distance of a limited number of runs",
            )
            # Rows which tell the unit in their label
            last = [rr for ll, rr in rows.items() if ll.startswith(("NICS [time]", "$\\langle a"))]
            require(len(last) == 1, "row of the change of the velocity", rows=list(rows))
            require(
                abs(last[0][0][0] - 1e4 * similar) <= 0.51e-2 + 1e-6 * similar * 1e4,
                "change of the velocity in the table", printed=last[0], expected=1e4 * similar,
            )
            ctx.count("rows", len(rows))
            if lib is es:
                close(ev.squared_acceleration_std / np.std(accs) if np.std(accs) else 1.0, 1.0, 1e-6, "deviation of the acceleration")
                close(ev.nics_acceleration_std, 0.5 * np.std(dots), 1e-7, "deviation of the similarity")
                close(ev.dotprod_acceleration_std, np.std(dots), 1e-7, "deviation of the dot product")
                close(ev.nics_acceleration, 0.5 * (1 - np.mean(dots)), 1e-7, "similarity of the velocities")
                close(
                    ev.dist_to_path_std,
                    np.std([np.mean(np.abs(np.sum(tt**2, axis=0) - 4.0)) for tt in trajs]),
                    1e-7, "deviation of the distance to the path",
                )
        # A run without any data is no outcome
        open(os.path.join(data, "runs", "empty.csv"), "w").close()
        for lib in (et, es):
            ev = lib.TrajectoryEvaluator(data_folder="runs", data_path=data)
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ev.run()
            require(
                (ev.n_converged, ev.n_local_minima) == (out[lib].n_converged, out[lib].n_local_minima),
                "a run without data is neither converged nor stuck",
            )
        close(out[et].squared_error_velocity, out[es].squared_error_velocity, 1e-7, "both evaluations agree (velocity)")
        close(out[et].dotprod_err_velocity, out[es].dotprod_err_velocity, 1e-7, "both evaluations agree (direction)")
        ctx.count("files", len(trajs))
        ctx.state(*trajs)
    finally:
        shutil.rmtree(root)


@check.sub(quick=150, need=("tables",))
def path_following_tables(rng, ctx):
    root = tempfile.mkdtemp(prefix="vt-p27-")
    try:
        number = int(rng.integers(4, 20))
        frames, evaluators = [], []
        for ii in range(int(rng.integers(1, 4))):
            frame = pd.DataFrame(
                {
                    "it": np.arange(number),
                    " converged": (rng.uniform(size=number) < 0.7).astype(float),
                    " distance": rng.uniform(1, 9, size=number),
                    " free_fraction": rng.uniform(size=number),
                    " gammas": rng.uniform(1, 5, size=number),
                }
            )
            frame.loc[:2, " converged"] = 1.0
            frame.to_csv(os.path.join(root, f"run{ii}.csv"), index=False)
            frames.append(frame)
            evaluator = pf.TrajectoryEvaluator(f"run{ii}.csv")
            evaluator.root_path = Path(root)
            evaluator.data_path = Path(".")
            evaluators.append(evaluator)
        mask = np.all([fr[" converged"].values > 0 for fr in frames], axis=0)
        together = pf.get_converged(evaluators)
        require(np.array_equal(np.asarray(together, dtype=bool), mask), "runs which converged everywhere")
        if rng.integers(2):
            # New evaluators, i.e., without having asked for the convergence before
            fresh = []
            for ev in evaluators:
                new = pf.TrajectoryEvaluator(ev.data_file)
                new.root_path, new.data_path = ev.root_path, ev.data_path
                fresh.append(new)
            evaluators = fresh
        for ev, frame in zip(evaluators, frames):
            ev.run(together)
            used = frame[mask]
            require(ev.n_runs == number, "number of runs of the table")
            close(ev.frac_converged, np.mean(frame[" converged"] > 0), 1e-12, "fraction of converged runs")
            close(ev.distance_mean, np.mean(used[" distance"]), 1e-9, "mean distance of converged runs")
            close(ev.distance_var, np.var(used[" distance"].values, ddof=1), 1e-9, "variance of the distance")
            close(ev.occupied_mean, 1 - np.mean(used[" free_fraction"]), 1e-9, "occupied fraction")
            deviations = [np.std(used[" free_fraction"].values, ddof=dd) for dd in (0, 1)]
            require(
                min(abs(ev.occupied_std - dd) for dd in deviations) < 1e-9,
                "standard deviation of the occupied fraction", actual=ev.occupied_std, expected=deviations,
            )
            close(ev.gammas_mean, np.mean(used[" gammas"]), 1e-9, "mean of the minimal distances")
            close(ev.gammas_var, np.var(used[" gammas"].values, ddof=1), 1e-9, "variance of the minimal distances")
        rows = _printed(pf.print_results, evaluators)
        used = [fr[mask] for fr in frames]
        occupied = [1 - uu[" free_fraction"].values for uu in used]
        _rows_agree(
            rows,
            {
                "Converged [\\%]": ([[[100 * np.mean(fr[" converged"] > 0)] for fr in frames]], 0),
                # The share itself may be the free or the occupied one
                "Free [\\%]": (
                    [[[100 * np.mean(oo)] for oo in occupied], [[100 - 100 * np.mean(oo)] for oo in occupied]], 2,
                ),
                "$\\Delta d$": ([[[np.mean(uu[" gammas"])] for uu in used]], 2),
                "Pathlength [m]": ([[[np.mean(uu[" distance"])] for uu in used]], 2),
            },
        )
        ctx.count("tables", len(frames))
        ctx.state(mask.astype(float), *[fr.values for fr in frames])
    finally:
        shutil.rmtree(root)


@check.sub(quick=600, need=("stopped", "collided", "full"))
def integration(rng, ctx):
    dim = int(rng.choice([2, 3]))
    kind = rng.choice(["linear", "rotating"])
    attractor = rng.normal(size=dim)
    mat = rng.normal(size=(dim, dim))
    seen = []

    def func(xx):
        seen.append(np.copy(xx))
        if kind == "linear":
            return (attractor - xx) * 2.0
        return (mat - mat.T) @ (xx - attractor) + 0.01

    start = attractor + gen.unit(rng, dim) * rng.choice([0.05, 0.5, 2.0])
    it_max, dt = int(rng.integers(5, 120)), 0.02
    margin = float(rng.choice([1e-3, 0.15]))
    border = attractor[0] + rng.normal() * 0.2
    collide = (lambda xx: bool(xx[0] > border)) if rng.integers(2) else None
    with contextlib.redirect_stdout(io.StringIO()):
        traj = cm.integrate_trajectory(
            func, gen.frozen(start), it_max, delta_time=dt, conv_margin=margin, collision_functor=collide
        )
    require(traj.shape[0] == dim and traj.shape[1] <= it_max, "size of the trajectory")
    if not traj.shape[1]:
        require(LA.norm((attractor - start) * 2) < margin or kind == "rotating", "empty only without motion")
        return
    close(traj[:, 0], start, 0, "trajectory begins at the start")
    steps = traj[:, 1:] - traj[:, :-1]
    close(LA.norm(steps, axis=0), np.full(steps.shape[1], dt), 1e-9, "equal speed along the trajectory")
    for ii in range(steps.shape[1]):
        vel = func(traj[:, ii])
        close(steps[:, ii], dt * vel / LA.norm(vel), 1e-9, "trajectory follows the dynamics")
        require(LA.norm(vel) >= margin, "trajectory stops at a local minimum")
    if collide is not None:
        require(not any(collide(pp) for pp in traj[:, 1:].T), "trajectory ends at the collision")
    if traj.shape[1] < it_max:
        # There is a reason to stop early
        last = traj[:, -1]
        options = [last]
        for _ in range(2):
            vel = func(options[-1])
            options.append(options[-1] + dt * vel / LA.norm(vel))
        slow = any(LA.norm(func(pp)) < margin for pp in options)
        hit = collide is not None and collide(options[1])
        require(slow or hit, "trajectory is complete unless it stops or collides")
        ctx.count("collided" if hit else "stopped")
    else:
        ctx.count("full")
    ctx.state(traj[:, -1], start)


@check.sub(quick=700, need=("converged", "not converged", "start in the tolerance", "without attractor", "plotted"))
def rollout(rng, ctx):
    """Fixed steps along a velocity, up to the first point close to the attractor."""
    from nonlinear_avoidance.visualization.plot_qolo import integrate_with_qolo

    attractor = rng.normal(size=2) * 2
    start = rng.normal(size=2) * 3
    if rng.integers(5) == 0:
        start = attractor + gen.unit(rng, 2) * 0.01
    turn = rng.uniform(-1.2, 1.2)
    matrix = -np.array([[np.cos(turn), -np.sin(turn)], [np.sin(turn), np.cos(turn)]]) * rng.uniform(0.3, 3)
    bend = rng.choice([0, 0.3])

    def func(pos):
        return matrix @ (pos - attractor) + bend * np.sin(pos[::-1])

    kwargs = {}
    dt = 0.1
    if rng.integers(2):
        kwargs["dt"] = dt = float(rng.uniform(0.01, 0.2))
    it_max = 70
    if rng.integers(2):
        kwargs["it_max"] = it_max = int(rng.integers(1, 120))
    tol = 0.05
    if rng.integers(2):
        kwargs["tol_conv"] = tol = float(10 ** rng.uniform(-2, 0.3))
    if aims := bool(rng.integers(4)):
        kwargs["attractor_position"] = gen.frozen(attractor)

    plots = []

    class Axes:
        def plot(self, *args, **_kwargs):
            plots.append([np.atleast_1d(np.array(arg, dtype=float)) for arg in args if not isinstance(arg, str)])

    if drawn := not rng.integers(3):
        kwargs["ax"] = Axes()
        kwargs["show_qolo"] = False
    out = integrate_with_qolo(gen.frozen(start), func, **kwargs)

    model = [np.array(start)]
    for _ in range(it_max):
        model.append(model[-1] + dt * (matrix @ (model[-1] - attractor) + bend * np.sin(model[-1][::-1])))
        distance = LA.norm(model[-1] - attractor)
        if aims and distance < tol:
            break
    model = np.array(model).T
    scale = 1 + np.max(np.abs(model))
    close(out, model, 1e-9 * scale, "rollout takes the steps along the velocity, up to the attractor")
    if drawn:
        require(plots, "rollout is drawn")
        close(np.array(plots[0]), model, 1e-9 * scale, "whole rollout is drawn")
        ctx.count("plotted")
    ctx.count("without attractor" if not aims else "converged" if distance < tol else "not converged")
    ctx.count("start in the tolerance", aims and LA.norm(start - attractor) < tol)
    ctx.state(model[:, -1])
