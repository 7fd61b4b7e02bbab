"""Rule sets over a few observations whose activations are chosen freely, shared by the harnesses."""
import json

NAMES = ["A", "B", "C", "D", "E"]


def cond(env, j, lo=0.0, hi=1.0):
    return env.condition.HyperrectangleCondition([j], bmins=[lo], bmaxs=[hi], features_names=[NAMES[j]])


def data(env, acts, kind="array", index=None):
    """observations on which rule j (feature j between 0 and 1) is activated as acts[j] says"""
    n = len(acts[0])
    val = lambda b: 0.5 if b else 5.0
    if kind == "df": return env.pd.DataFrame({NAMES[j]: [val(b) for b in acts[j]] for j in range(len(acts))}, index=index)
    return env.np.array([[val(acts[j][i]) for j in range(len(acts))] for i in range(n)])


def act(env, bits, to_file=True):
    return env.Activation(env.np.array(list(bits), dtype=env.np.ubyte), to_file=to_file)


def choices(env, name, k, n):
    return [[env.choice("%s%d_%d" % (name, j, i), [1, 0]) for i in range(n)] for j in range(k)]


def target(env, y, kind, index=None):
    return env.pd.Series(list(y), index=index) if kind == "series" else env.np.array(list(y))


def limits(env, lim, name="thresholds.json"):
    """a thresholds file"""
    p = env.Path(env.tmpdir) / name
    with env.open(p, "w") as f: f.write(json.dumps(lim))
    return p


def quiet(env):
    """plenty of memory, no clash between random file names (both are left free in C03 and C05)"""
    env.ample_memory = True
    env.max_collisions = 0
