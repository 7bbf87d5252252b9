"""Simulation of Python object lifetimes (runs inside an interpreter with ASan preloaded and PYTHONMALLOC=malloc).

plan = list of operations over numbered slots, a pure function of a seed.  It is executed twice, each time in a process
forked from the same pristine interpreter: in the keeping run every drop, box and collection is ignored (all references
stay), in the dropping run they happen.  Both logs must be equal and neither run may touch freed memory."""
import ctypes, gc, hashlib, json, math, os, random, resource, signal, sys, time, weakref

MOD_DIR = os.environ["PYSIM_MOD"]
sys.path.insert(0, MOD_DIR)
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402
import factorama as F  # noqa: E402
from factorama import _factorama as FM  # noqa: E402
HOOK = ctypes.CDLL(FM.__file__)
HOOK.pysim_arm.argtypes = [ctypes.c_long]
HOOK.pysim_disarm.restype = ctypes.c_long

VAR_CALLS = {
    "Variable": ["id", "size", "value", "value", "value", "type", "name", "is_constant", "clone"],
    "PoseVariable": ["pos_W", "rot_CW", "dcm_CW"], "LandmarkVariable": ["pos_W"], "GenericVariable": [],
    "RotationVariable": ["dcm_AB", "dcm_AB", "rotation", "rotation"],
    "InverseRangeVariable": ["pos_W", "origin_pos_W", "bearing_W", "inverse_range", "@minimum_inverse_range", "@maximum_inverse_range"],
    "PlaneVariable": ["unit_vector", "unit_vector", "distance_from_origin"], "Pose2DVariable": ["pos_2d", "theta", "dcm_2d"],
}
FAC_CALLS = ["id", "residual_size", "compute_residual", "compute_residual", "compute_residual", "variables", "variables", "name", "type"]
FAC_EXTRA = {"BearingObservationFactor": ["bearing_C_obs"], "InverseRangeBearingFactor": ["bearing_C_obs", "bearing_C_obs"],
             "BearingObservationFactor2D": ["bearing_angle_obs"], "RangeBearingFactor2D": ["range_obs", "bearing_angle_obs"],
             "CoordinateTransformFactor": ["weight"]}
G_READ = ["compute_full_residual_vector", "compute_full_jacobian_matrix", "compute_full_jacobian_and_residual", "get_all_variables", "get_all_factors",
          "get_variable_vector", "jacobian", "residual", "jacobian_valid", "residual_valid", "print_structure", "print_variables",
          "print_jacobian_and_residual", "num_variables", "num_values", "num_residuals", "detailed_factor_test", "compute_sparse_jacobian_matrix", "sparse_jacobian"]
STATS = ["valid", "status", "chi2", "delta_norm", "residual_norm", "current_iteration", "rank", "damping_parameter"]
SET = ["method", "max_num_iterations", "step_tolerance", "residual_tolerance", "initial_lambda", "max_lambda", "lambda_up_factor",
       "lambda_down_factor", "learning_rate", "verbose", "check_rank_deficiency"]


# ---------------------------------------------------------------------------------------------------- generation
def rotm(v):
    t = math.sqrt(sum(x * x for x in v))
    if t < 1e-12:
        return [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    k = [x / t for x in v]
    K = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]
    K2 = [[sum(K[i][m] * K[m][j] for m in range(3)) for j in range(3)] for i in range(3)]
    return [[(1.0 if i == j else 0.0) + math.sin(t) * K[i][j] + (1 - math.cos(t)) * K2[i][j] for j in range(3)] for i in range(3)]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed * 7919 + 13)
        self.ops, self.n = [], 0
        self.live = {}      # slot -> kind
        self.pend_v, self.pend_f, self.vid, self.fid = [], [], 0, 0
        self.ids = self.r.choice([1, 1, 7, 1000003])
        self.off = self.r.choice([0, 0, 5, -3])
        self.gv, self.gf = [], []
        self.g = 0
        self.loose = []

    def slot(self, kind):
        self.n += 1
        self.live[self.n] = kind
        return self.n

    def op(self, o, **k):
        k["op"] = o
        self.ops.append(k)

    def v(self, n, s=1.0):
        return [round(self.r.gauss(0, s), 6) for _ in range(n)]

    def var(self, cls, *args, const=None):
        s = self.slot("var:" + cls)
        self.vid += 1
        sub = self.r.random() < 0.12
        self.op("new", dst=s, cls=cls, args=[self.off + self.vid * self.ids] + list(args), sub=sub)
        if const if const is not None else self.r.random() < 0.08:
            self.op("call", on=s, m="set_constant", args=[True])
            if self.r.random() < 0.4:  # a constant needs no place in the graph: only factors refer to it
                self.loose.append(s)
                return s
        self.pend_v.append(s)
        return s

    def fac(self, cls, *args):
        s = self.slot("fac:" + cls)
        self.fid += 1
        self.op("new", dst=s, cls=cls, args=[self.off + self.fid * self.ids] + [{"ref": a[1]} if isinstance(a, tuple) else a for a in args], sub=self.r.random() < 0.05)
        self.pend_f.append(s)
        return s

    def near(self, x, s=0.05):
        return [round(a + self.r.gauss(0, s), 6) for a in x]

    def cluster(self):
        r, R = self.r, lambda s: ("r", s)
        k = r.randrange(5)
        if k == 0:  # 2D
            p = [self.v(2, 2) + [r.uniform(-1, 1)] for _ in range(2)]
            l = self.v(2, 5)
            l[0] += 8
            a, b = self.var("Pose2DVariable", p[0]), self.var("Pose2DVariable", self.near(p[1]))
            lm = self.var("GenericVariable", self.near(l))
            m = self.var("GenericVariable", [p[1][i] - p[0][i] for i in range(3)], const=r.random() < 0.6)
            self.fac("Pose2DPriorFactor", R(a), p[0], 0.1, 0.1)
            self.fac("Pose2DPriorFactor", R(b), p[1], 0.5, 0.2)
            self.fac("Pose2DBetweenFactor", R(a), R(b), R(m), 0.1, 0.1, r.random() < 0.4)
            self.fac("GenericPriorFactor", R(m), self.v(3, 0.1), 1.0)
            for q, s in ((p[0], a), (p[1], b)):
                d = [l[0] - q[0], l[1] - q[1]]
                ang = math.atan2(d[1], d[0]) - q[2]
                ang = math.atan2(math.sin(ang), math.cos(ang))
                self.fac("RangeBearingFactor2D", R(s), R(lm), math.hypot(*d), ang, 0.2, 0.05)
                if r.random() < 0.6:
                    self.fac("BearingObservationFactor2D", R(s), R(lm), ang, 0.05)
        elif k == 1:  # 3D bearing
            rv = [self.v(3, 0.2) for _ in range(2)]
            p = [self.v(3, 0.5) for _ in range(2)]
            lw = self.v(3, 1)
            lw[2] += 6
            ps = []
            for i in range(2):
                if r.random() < 0.5:
                    ps.append(self.var("PoseVariable", self.near(p[i], 0.02) + rv[i]))
                else:
                    ps.append(self.var("PoseVariable", self.near(p[i], 0.02), rotm(rv[i])))
                self.fac("PosePositionPriorFactor", R(ps[i]), p[i], 0.1)
                self.fac("PoseOrientationPriorFactor", R(ps[i]), rotm(self.near(rv[i], 0.02)), 0.1)
            lm = self.var("LandmarkVariable", self.near(lw))
            brg = []
            for i in range(2):
                d = [lw[j] - p[i][j] for j in range(3)]
                M = rotm(rv[i])
                c = [sum(M[a][b] * d[b] for b in range(3)) for a in range(3)]
                n = math.sqrt(sum(x * x for x in c))
                brg.append([x / n for x in c])
                self.fac("BearingObservationFactor", R(ps[i]), R(lm), brg[i], 0.05)
                if r.random() < 0.5:
                    self.fac("BearingProjectionFactor2D", R(ps[i]), R(lm), brg[i], 0.05, 1e-6)
            self.fac("GenericPriorFactor", R(lm), lw, 2.0)
            if r.random() < 0.7:
                ir = self.var("InverseRangeVariable", p[0], [x for x in lw], 5.0)
                self.fac("InverseRangeBearingFactor", R(ps[1]), R(ir), brg[1], 0.05)
                self.fac("GenericPriorFactor", R(ir), [0.2], 1.0)
            if r.random() < 0.7:
                m = self.var("GenericVariable", [p[1][i] - p[0][i] for i in range(3)])
                self.fac("GenericPriorFactor", R(m), [p[1][i] - p[0][i] for i in range(3)], 0.3)
                self.fac("PosePositionBetweenFactor", R(ps[0]), R(ps[1]), R(m), 0.2, r.random() < 0.4)
            if r.random() < 0.7:
                q = self.var("RotationVariable", rotm(self.v(3, 0.1)))
                self.fac("RotationPriorFactor", R(q), rotm(self.v(3, 0.1)), 0.3)
                self.fac("PoseOrientationBetweenFactor", R(ps[0]), R(ps[1]), R(q), 0.2)
        elif k == 2:  # plane
            n = [0.0, 0.1, 1.0]
            pl = self.var("PlaneVariable", n, 1.0)
            self.fac("PlanePriorFactor", R(pl), n, 1.1, 0.5, 0.5)
            for _ in range(r.randint(1, 2)):
                x = self.v(3, 1)
                lm = self.var(*r.choice([("LandmarkVariable", x), ("GenericVariable", x)]))
                self.fac("GenericPriorFactor", R(lm), self.near(x), 1.0)
                if r.random() < 0.5:
                    self.fac("PlaneFactor", R(lm), R(pl), 0.3)
                else:
                    self.fac("PlaneFactor", R(lm), R(pl), 0.3, True, 1.0, self.v(3, 1))
        elif k == 3:  # coordinate transform
            q = self.var("RotationVariable", rotm(self.v(3, 0.2)))
            o = self.var("GenericVariable", self.v(3))
            s = self.var("GenericVariable", [1.1])
            a, b = self.var("LandmarkVariable", self.v(3, 2)), self.var("LandmarkVariable", self.v(3, 2))
            self.fac("CoordinateTransformFactor", R(q), R(o), R(s), R(a), R(b), 0.5)
            self.fac("RotationPriorFactor", R(q), rotm(self.v(3, 0.2)), 0.5)
            self.fac("GenericPriorFactor", R(o), self.v(3), 1.0)
            self.fac("GenericPriorFactor", R(s), [1.0], 0.2)
            self.fac("GenericPriorFactor", R(a), self.v(3), 1.0)
            self.fac("GenericPriorFactor", R(b), self.v(3), 1.0)
        else:  # generic / linear velocity
            d = r.randint(1, 4)
            x, y, v = (self.var("GenericVariable", self.v(d)) for _ in range(3))
            self.fac("LinearVelocityFactor", R(x), R(y), R(v), 0.5, 0.3)
            m = self.var("GenericVariable", self.v(d), const=True)
            self.fac("GenericBetweenFactor", R(x), R(y), R(m), 0.7)
            for z in (x, y, v):
                self.fac("GenericPriorFactor", R(z), self.v(d), 1.0)

    def pick(self, prefix):
        c = [s for s, k in self.live.items() if k.startswith(prefix)]
        return self.r.choice(c) if c else None

    def drop(self, s):
        k = self.live.pop(s, None)
        if k is None:
            return
        q = self.r.random()
        if q < 0.2:
            self.op("box", k=s)
        elif q < 0.3:
            w = self.pick(self.r.choice(["var:", "fac:", "graph", "arr", "opt"]))
            self.op("weak", k=s, w=w)
            self.op("drop", k=s)
        else:
            self.op("drop", k=s)
        if self.r.random() < 0.25:
            self.op("gc")
        if self.r.random() < 0.3:
            self.churn()

    def churn(self):
        self.op("churn", seed=self.r.randrange(1000), n=self.r.choice([1, 3, 20]))

    def add_pending(self, g, drop_p):
        """adds what is pending to graph g; references may be dropped right after, or even between"""
        l = [("add_variable", s) for s in self.pend_v] + [("add_factor", s) for s in self.pend_f]
        if self.r.random() < 0.3:
            self.r.shuffle(l)
        self.gv += self.pend_v
        self.gf += self.pend_f
        self.pend_v, self.pend_f = [], []
        for m, s in l:
            if s not in self.live:
                continue
            self.op("call", on=g, m=m, args=[{"ref": s}])
            if self.r.random() < drop_p:
                self.drop(s)
        self.op("call", on=g, m="finalize_structure", args=[])
        for s in self.loose:
            if s in self.live and self.r.random() < drop_p:
                self.drop(s)
        self.loose = []

    def var_call(self, s):
        cls = self.live[s].split(":")[1]
        r = self.r
        q = r.random()
        n = {"PoseVariable": 6, "LandmarkVariable": 3, "RotationVariable": 3, "InverseRangeVariable": 1, "PlaneVariable": 4, "Pose2DVariable": 3}.get(cls)
        if q < 0.13:
            self.op("inc", on=s, seed=r.randrange(10**6), scale=r.choice([0.01, 0.1, 1.0]))
        elif q < 0.2:
            self.op("setv", on=s, seed=r.randrange(10**6), scale=r.choice([0.01, 0.1]))
        elif q < 0.23 and cls == "PlaneVariable":
            self.op("call", on=s, m="distance_from_point", args=[self.v(3)])
        elif q < 0.26 and cls == "Pose2DVariable":
            self.op("call", on=s, m="set_pos_2d", args=[self.v(2)])
        elif q < 0.28 and cls == "Pose2DVariable":
            self.op("call", on=s, m="set_theta", args=[r.uniform(-3, 3)])
        elif q < 0.30:
            self.op("setc", on=s, v=r.random() < 0.5, g=self.g)
        else:
            m = r.choice(VAR_CALLS["Variable"] + VAR_CALLS.get(cls, []) * 2)
            if m == "clone":
                d = self.slot("var:" + cls)
            else:
                d = self.slot("arr:") if r.random() < 0.8 else None
            self.op("call", on=s, m=m, args=[], dst=d)
            if m != "clone" and d and r.random() < 0.3:
                self.drop(s)

    def fac_call(self, s):
        cls = self.live[s].split(":")[1]
        m = self.r.choice(FAC_CALLS + FAC_EXTRA.get(cls, []) * 2)
        d = self.slot("list:" if m == "variables" else "arr:") if self.r.random() < 0.8 else None
        self.op("call", on=s, m=m, args=[], dst=d)
        if m == "variables" and d and self.r.random() < 0.7:
            for i in range(self.r.randint(1, 3)):
                e = self.slot("any:")
                self.op("item", on=d, i=i, dst=e)
            if self.r.random() < 0.5:
                self.drop(d)

    def alone(self):
        """a fresh factor that is all that is left of its group, or the views of a variable that are all that is left of it"""
        r = self.r
        pv, pf, self.pend_v, self.pend_f = self.pend_v, self.pend_f, [], []
        self.cluster()
        vs, fs = self.pend_v, self.pend_f
        self.pend_v, self.pend_f = pv, pf
        kinds = sorted({self.live[s] for s in fs})
        kind = r.choice(kinds)
        f = r.choice([s for s in fs if self.live[s] == kind])
        v = None
        if r.random() < 0.4:
            kinds = sorted({self.live[s] for s in vs})
            kind = r.choice(kinds)
            v = r.choice([s for s in vs if self.live[s] == kind])
            f = None
        gone = [s for s in vs + fs if s not in (v, f)]
        if v is None and r.random() < 0.4:
            keep = r.choice(vs)
            gone.remove(keep)
        r.shuffle(gone)
        views = []
        if v is not None:
            cls = self.live[v].split(":")[1]
            for m in VAR_CALLS["Variable"] + VAR_CALLS.get(cls, []):
                if m != "clone":
                    d = self.slot("arr:")
                    views.append(d)
                    self.op("call", on=v, m=m, args=[], dst=d)
            gone.append(v)
        for s in gone:
            self.op("drop", k=s)
            self.live.pop(s, None)
        if r.random() < 0.5:
            self.op("gc")
        self.churn()
        if f is not None:
            for _ in range(3):
                self.fac_call(f)
        for d in views:
            self.op("read", k=d)

    def bad(self):
        r = self.r
        k = r.choice(["wrongtype", "wrongsize", "dup", "none", "hook", "missing", "hookraise", "setupnone"])
        v, f, g, o = self.pick("var:"), self.pick("fac:"), self.pick("graph"), self.pick("opt")
        if k == "wrongtype":
            c = [x for x in [(v, "set_value_from_vector", ["x"]), (v, "apply_increment", [{"obj": 1}]), (g, "add_variable", [{"ref": f}]),
                             (g, "add_factor", [{"ref": v}]), (o, "setup", [{"ref": v}, 3]), (g, "get_variable", ["a"]), (o, "estimate_covariance", [{"ref": f}])] if x[0]]
            if c:
                x = r.choice(c)
                self.op("call", on=x[0], m=x[1], args=x[2])
            if r.random() < 0.5:
                self.op("new", dst=self.slot("any:"), cls=r.choice(["BearingObservationFactor", "RotationPriorFactor", "PoseVariable", "GenericPriorFactor"]), args=[1, {"ref": v or f}, "x"])
        elif k == "wrongsize":
            if v:
                self.op("call", on=v, m=r.choice(["set_value_from_vector", "apply_increment"]), args=[self.v(r.choice([0, 7, 9]))])
            if g:
                self.op("call", on=g, m=r.choice(["apply_increment", "set_variable_values_from_vector"]), args=[self.v(r.choice([0, 1, 77]))])
        elif k == "dup":
            if g and v:
                self.op("call", on=g, m="add_variable", args=[{"ref": v}])
            if g and f:
                self.op("call", on=g, m="add_factor", args=[{"ref": f}])
        elif k == "none":
            c = [x for x in [(g, "add_variable", [None]), (g, "add_factor", [None]), (o, "estimate_covariance", [None])] if x[0]]
            if c:
                x = r.choice(c)
                self.op("call", on=x[0], m=x[1], args=x[2])
        elif k in ("hook", "hookraise"):
            ds = [s for s in self.live if r.random() < 0.3][:3]
            if v:
                self.op("call", on=v, m=r.choice(["set_value_from_vector", "apply_increment"]), args=[{"hook": ds, "raise": k == "hookraise", "val": self.v(r.choice([1, 3, 6]), 0.05)}])
                for s in ds:
                    self.live.pop(s, None)
            elif g:
                self.op("call", on=g, m="apply_increment", args=[{"hook": ds, "raise": k == "hookraise", "val": self.v(3)}])
                for s in ds:
                    self.live.pop(s, None)
        elif k == "setupnone" and o:
            pass
        elif g:
            self.op("call", on=g, m="get_variable", args=[987654], dst=self.slot("any:"))

    def graph_call(self, g):
        r = self.r
        q = r.random()
        if q < 0.12:
            s = self.slot("any:")
            i = r.choice(range(1, max(self.vid, 1) + 1))
            self.op("call", on=g, m="get_variable", args=[self.off + i * self.ids], dst=s)
        elif q < 0.2:
            self.op("ginc", on=g, seed=r.randrange(10**6), scale=0.05)
        elif q < 0.26:
            self.op("gset", on=g, seed=r.randrange(10**6), scale=0.05)
        elif q < 0.3:
            self.op("call", on=g, m="finalize_structure", args=[])
        else:
            m = r.choice(G_READ)
            d = self.slot("list:" if m.startswith("get_all") else "arr:") if r.random() < 0.85 else None
            if r.random() < 0.1 and m.startswith("compute_full"):
                self.op("afail", n=r.randrange(30))
            self.op("call", on=g, m=m, args=[1e-3] if m == "detailed_factor_test" else [], dst=d)
            if d and m.startswith("get_all"):
                for _ in range(r.randint(1, 3)):
                    self.op("item", on=d, i=r.randrange(8), dst=self.slot("any:"))
                if r.random() < 0.6:
                    self.drop(d)

    def opt_call(self, o, g):
        r = self.r
        q = r.random()
        if q < 0.2:
            st = self.slot("set:")
            self.op("new", dst=st, cls="OptimizerSettings", args=[])
            self.op("seta", on=st, a="method", v={"enum": ["OptimizerMethod", r.choice(["GaussNewton", "LevenbergMarquardt"])]})
            self.op("seta", on=st, a="max_num_iterations", v=r.randint(1, 6))
            if g in self.live:
                self.op("call", on=o, m="setup", args=[{"ref": g}, {"ref": st}])
                if r.random() < 0.6:
                    self.drop(st)
                if r.random() < 0.35:
                    self.drop(g)
        elif q < 0.45:
            if r.random() < 0.15:
                self.op("afail", n=r.randrange(120))
            self.op("call", on=o, m="optimize", args=[])
        elif q < 0.55:
            self.op("call", on=o, m="prepare_to_estimate_covariances", args=[])
        elif q < 0.7:
            v = self.pick("var:") or self.pick("any:")
            if v:
                self.op("call", on=o, m="estimate_covariance", args=[{"ref": v}], dst=self.slot("cov:"))
        elif q < 0.75:
            self.op("call", on=o, m="print_all_covariances", args=[])
        elif q < 0.85:
            a = r.choice(["@initial_stats", "@current_stats", "@current_stats", "settings"])
            d = self.slot("stats:" if a[0] == "@" else "set:")
            self.op("call", on=o, m=a, args=[], dst=d)
            if r.random() < 0.4:
                self.drop(o)
        elif q < 0.9:
            st = self.pick("set:")
            if st:
                self.op("seta", on=st, a="max_num_iterations", v=r.randint(1, 5))
        else:
            st = self.pick("stats:") or self.pick("set:")
            if st:
                self.op("read", k=st)

    def build(self):
        r = self.r
        drop_p = r.choice([0, 0.3, 0.7, 1.0])
        if r.random() < 0.2:
            self.op("gcthr", n=r.choice([1, 5, 50]))
        if r.random() < 0.75:
            g = self.g = self.slot("graph")
            self.op("new", dst=g, cls="FactorGraph", args=[])
            for _ in range(r.randint(1, 2)):
                self.cluster()
            early = [s for s in self.pend_v if r.random() < 0.15]
            self.add_pending(g, drop_p)
            for s in early:
                self.drop(s)
            o = None
            if r.random() < 0.75:
                o = self.slot("opt")
                st = self.slot("set:")
                self.op("new", dst=o, cls="SparseOptimizer", args=[])
                self.op("new", dst=st, cls="OptimizerSettings", args=[])
                self.op("seta", on=st, a="method", v={"enum": ["OptimizerMethod", r.choice(["GaussNewton", "LevenbergMarquardt"])]})
                self.op("seta", on=st, a="max_num_iterations", v=r.randint(1, 6))
                self.op("call", on=o, m="setup", args=[{"ref": g}, {"ref": st}])
                if r.random() < 0.5:
                    self.drop(st)
        else:  # factors and variables without a graph
            g = o = None
            for _ in range(r.randint(1, 2)):
                self.cluster()
            for s in list(self.pend_v):
                if r.random() < drop_p:
                    self.drop(s)
        dp = r.choice([0.1, 0.25, 0.4])
        al = r.choice([0, 0, 0.05])
        if r.random() < 0.3:
            self.alone()
        for _ in range(r.randint(6, 40)):
            if r.random() < al:
                self.alone()
            q = r.random()
            if q < dp:
                s = r.choice(list(self.live) or [None])
                if s and (self.live[s] not in ("graph", "opt") or r.random() < 0.3):
                    self.drop(s)
            elif q < dp + 0.05:
                self.op("gc")
            elif q < dp + 0.12:
                self.churn()
            elif q < dp + 0.17:
                self.bad()
            elif q < dp + 0.27:
                s = self.pick(r.choice(["arr:", "arr:", "cov:", "list:", "stats:"]))
                if s:
                    self.op("read", k=s)
            elif q < dp + 0.33 and self.pick("any:"):
                s = self.pick("any:")
                self.op("anycall", on=s, seed=r.randrange(1000), dst=self.slot("arr:"))
            else:
                c = []
                if g in self.live:
                    c += ["g"] * 3
                if o in self.live:
                    c += ["o"] * 4
                if self.pick("var:"):
                    c += ["v"] * 2
                if self.pick("fac:"):
                    c += ["f"] * 2
                if r.random() < 0.06 and g in self.live:
                    c = ["grow"]
                if not c:
                    continue
                k = r.choice(c)
                if k == "g":
                    self.graph_call(g)
                elif k == "o":
                    self.opt_call(o, g)
                elif k == "v":
                    self.var_call(self.pick("var:"))
                elif k == "f":
                    self.fac_call(self.pick("fac:"))
                else:
                    self.cluster()
                    self.add_pending(g, drop_p)
        l = list(self.live)
        r.shuffle(l)
        for s in l:
            if r.random() < 0.5:
                self.op("read", k=s)
            self.op("drop", k=s)
            if r.random() < 0.1:
                self.op("gc")
        self.op("gc")
        return self.ops


# ---------------------------------------------------------------------------------------------------- execution
def canon(x, depth=0):
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.ndarray):
        return ["arr", list(x.shape), [canon(float(v)) for v in x.flatten().tolist()] if x.dtype.kind == "f" else repr(x.tolist())]
    if isinstance(x, (list, tuple)):
        return ["seq"] + [canon(v, depth + 1) for v in x]
    if isinstance(x, F.Variable):
        return ["var", int(x.type()), x.id(), canon(np.array(x.value())), x.is_constant()]
    if isinstance(x, F.Factor):
        return ["fac", int(x.type()), x.id(), x.residual_size()]
    if isinstance(x, F.OptimizerStats):
        return ["stats"] + [canon(getattr(x, a)) for a in STATS]
    if isinstance(x, F.OptimizerSettings):
        return ["settings"] + [canon(getattr(x, a)) for a in SET]
    if isinstance(x, (F.FactorGraph,)):
        return ["graph", x.num_values(), x.num_residuals(), [v.id() for v in x.get_all_variables()], [f.id() for f in x.get_all_factors()]]
    if isinstance(x, F.SparseOptimizer):
        return ["opt", canon(x.current_stats)]
    if type(x).__name__ in ("VariableType", "FactorType", "OptimizerMethod", "OptimizerStatus"):
        return [type(x).__name__, int(x)]
    return ["?", type(x).__name__]


SUBS = {}


def sub(cls):
    if cls not in SUBS:
        base = getattr(F, cls)

        def __del__(self):
            try:
                self.id()
            except Exception:  # noqa: BLE001
                pass
        SUBS[cls] = type("Py" + cls, (base,), {"__del__": __del__})
    return SUBS[cls]


class Stop(Exception):
    pass


class Exec:
    def __init__(self, keep):
        self.keep = keep
        self.s = {}
        self.hidden = []
        self.src = {}      # array slot -> (owner, method, snapshot): keeping run only
        self.log, self.viol = [], []
        self.fired = {}
        self.afail = None
        self.weak = []
        self.stat = {}

    def f(self, k, n=1):
        self.fired[k] = self.fired.get(k, 0) + n

    def remove(self, k):
        if k in self.s:
            o = self.s.pop(k)
            self.f("drop")
            if self.keep:
                self.hidden.append(o)
            del o
        self.src.pop(k, None) if not self.keep else None

    def arg(self, a):
        if isinstance(a, dict):
            if "ref" in a:
                if a["ref"] not in self.s:
                    raise Stop()
                return self.s[a["ref"]]
            if "obj" in a:
                return object()
            if "enum" in a:
                return getattr(getattr(F, a["enum"][0]), a["enum"][1])
            if "hook" in a:
                ex = self

                class Hook:
                    def __array__(self, *x, **k):
                        for d in a["hook"]:
                            ex.remove(d)
                        if not ex.keep:
                            gc.collect()
                        ex.f("reentrant_conversion")
                        if a["raise"]:
                            raise ValueError("hook")
                        return np.array(a["val"], dtype=float)
                return Hook()
        if isinstance(a, list):
            return np.array(a, dtype=float)
        return a

    def out(self, i, o, r):
        self.log.append([i, o, r])

    def guarded(self, i, o, fn, dst=None, src=None):
        """runs fn, logs its outcome, stores its result"""
        fired = 0
        try:
            try:
                if self.afail is not None:
                    HOOK.pysim_arm(self.afail)
                r = fn()
            finally:
                if self.afail is not None:
                    fired = HOOK.pysim_disarm()
                    if fired:
                        self.f("alloc_failure")
                    self.afail = None
        except Stop:
            return
        except Exception as e:  # noqa: BLE001
            self.f("raised:" + type(e).__name__)
            self.out(i, o, "!" + type(e).__name__)
            if isinstance(e, (SystemError, RecursionError)):
                self.viol.append(("system-error", f"op {i} {o}: {e!r}"))
            e.__traceback__ = None
            return
        self.stat[o] = self.stat.get(o, 0) + 1
        self.out(i, o, canon(r))
        if dst is not None and r is not None:
            if dst in self.s:
                self.remove(dst)
            self.s[dst] = r
            if self.keep and src is not None and isinstance(r, np.ndarray):
                self.src[dst] = (src[0], src[1], np.array(r))

    def run(self, ops):
        for i, p in enumerate(ops):
            self.step(i, p)
        HOOK.pysim_disarm()
        self.s.clear()
        self.src.clear()
        self.hidden.clear()
        gc.collect()

    def step(self, i, p):
        o = p["op"]
        s = self.s
        if o == "new":
            cls = p["cls"]
            c = sub(cls) if p.get("sub") else getattr(F, cls)
            self.guarded(i, "new " + cls, lambda: c(*[self.arg(a) for a in p["args"]]), p["dst"])
        elif o == "call":
            if p["on"] not in s:
                return
            t, m = s[p["on"]], p["m"]
            if m[0] == "@":
                self.guarded(i, m, lambda: getattr(t, m[1:]), p.get("dst"), (t, m))
            else:
                self.guarded(i, m, lambda: getattr(t, m)(*[self.arg(a) for a in p["args"]]), p.get("dst"), (t, m) if not p["args"] else None)
        elif o == "item":
            if p["on"] in s and isinstance(s[p["on"]], (list, tuple)) and len(s[p["on"]]):
                l = s[p["on"]]
                e = l[p["i"] % len(l)]
                self.out(i, o, canon(e))
                s[p["dst"]] = e
        elif o == "anycall":
            if p["on"] not in s:
                return
            t = s[p["on"]]
            r = random.Random(p["seed"])
            if isinstance(t, F.Variable):
                m = r.choice(["value", "id", "name", "clone"] + VAR_CALLS.get(type(t).__name__.replace("Py", ""), []))
            elif isinstance(t, F.Factor):
                m = r.choice(["compute_residual", "variables", "id", "name"])
            else:
                return
            if m[0] == "@":
                return
            self.guarded(i, m, lambda: getattr(t, m)(), p["dst"], (t, m))
        elif o == "setc":
            # constness of a graph's variable takes effect at finalize_structure(): never one without the other
            if p["on"] in s and isinstance(s[p["on"]], F.Variable) and (p["g"] in s or p["g"] == 0):
                self.guarded(i, o, lambda: s[p["on"]].set_constant(p["v"]))
                if p["g"]:
                    self.guarded(i, "finalize_structure", lambda: s[p["g"]].finalize_structure())
        elif o in ("inc", "setv"):
            if p["on"] in s and isinstance(s[p["on"]], F.Variable):
                t = s[p["on"]]
                r = random.Random(p["seed"])
                n = len(t.value())
                d = np.array([r.gauss(0, p["scale"]) for _ in range(n if o == "setv" else t.size())])
                if o == "inc":
                    self.guarded(i, o, lambda: t.apply_increment(d))
                else:
                    self.guarded(i, o, lambda: t.set_value_from_vector(np.array(t.value()) + d))
        elif o in ("ginc", "gset"):
            if p["on"] in s:
                t = s[p["on"]]
                r = random.Random(p["seed"])
                if o == "ginc":
                    self.guarded(i, o, lambda: t.apply_increment(np.array([r.gauss(0, p["scale"]) for _ in range(t.num_values())])))
                else:
                    def q():
                        x = np.array(t.get_variable_vector())
                        t.set_variable_values_from_vector(x + np.array([r.gauss(0, p["scale"]) for _ in range(len(x))]))
                    self.guarded(i, o, q)
        elif o == "seta":
            if p["on"] in s:
                self.guarded(i, o, lambda: setattr(s[p["on"]], p["a"], self.arg(p["v"])))
        elif o == "read":
            if p["k"] in s:
                x = s[p["k"]]
                self.guarded(i, o, lambda: x)
                if self.keep and p["k"] in self.src:
                    ow, m, snap = self.src[p["k"]]
                    m = {"compute_full_jacobian_matrix": "jacobian", "compute_full_residual_vector": "residual"}.get(m, m) # the check must not evaluate
                    try:
                        cur = np.array(getattr(ow, m[1:]) if m[0] == "@" else getattr(ow, m)())
                    except RuntimeError:
                        return
                    now = np.array(x)
                    if not (canon(now) == canon(snap) or canon(now) == canon(cur)):
                        self.viol.append(("array-differs", f"op {i}: array obtained from {m}() holds {now.tolist()}: neither its contents when obtained {snap.tolist()} nor the present {cur.tolist()}"[:600], i))
        elif o == "drop":
            self.remove(p["k"])
        elif o == "box":
            if p["k"] in s:
                x = s.pop(p["k"])
                self.f("cycle")
                if self.keep:
                    self.hidden.append(x)
                else:
                    b = [x]
                    b.append(b)
                    del b
                del x
        elif o == "weak":
            if p["k"] in s:
                w, ex = p["w"], self

                def cb(_):
                    ex.f("weakref_callback")
                    if w in ex.s:
                        try:
                            canon(ex.s[w])
                        except Exception:  # noqa: BLE001
                            pass
                try:
                    self.weak.append(weakref.ref(s[p["k"]], cb))
                except TypeError:
                    pass
        elif o == "gc":
            self.f("gc")
            if not self.keep:
                gc.collect()
        elif o == "gcthr":
            if not self.keep:
                gc.set_threshold(p["n"], 2, 2)
                self.f("gc_threshold")
        elif o == "afail":
            self.afail = p["n"]
        elif o == "churn":
            self.f("churn")
            r = random.Random(p["seed"])
            l = []
            for j in range(p["n"]):
                k = r.randrange(5)
                if k == 0:
                    l.append(F.PoseVariable(j, np.full(6, 1e9 + j)))
                elif k == 1:
                    l.append(F.GenericVariable(j, np.full(r.randint(1, 6), -7e8)))
                elif k == 2:
                    v = F.LandmarkVariable(j, np.full(3, 5e7))
                    l.append(F.GenericPriorFactor(j, v, np.full(3, 3e7), 1.0))
                elif k == 3:
                    l.append(np.full(r.randint(1, 40), 9e9))
                else:
                    l.append(F.FactorGraph())
            del l


# ---------------------------------------------------------------------------------------------------- forked runs
def child(ops, keep, timeout=60):
    r, w = os.pipe()
    er, ew = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.close(er)
            os.dup2(ew, 2)
            d = os.open("/dev/null", os.O_WRONLY)
            os.dup2(d, 1)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout))
            e = Exec(keep)
            e.run(ops)
            b = json.dumps({"log": e.log, "viol": e.viol, "fired": e.fired, "stat": e.stat}).encode()
            while b:
                b = b[os.write(w, b):]
            os._exit(0)
        except BaseException as x:  # noqa: BLE001
            os.write(2, f"PYSIM-INTERNAL {x!r} {sys.exc_info()[2].tb_lineno}".encode())
            os._exit(99)
    os.close(w)
    os.close(ew)
    import select
    out, err, fds = [], b"", {r, er}
    while fds:
        for fd in select.select(list(fds), [], [])[0]:
            c = os.read(fd, 65536)
            if not c:
                fds.discard(fd)
                os.close(fd)
            elif fd == r:
                out.append(c)
            elif len(err) < 20000:
                err += c
    st = os.waitpid(pid, 0)[1]
    err = err.decode(errors="replace")
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return json.loads(b"".join(out)), None, err
    if os.WIFSIGNALED(st):
        return None, ("hang" if os.WTERMSIG(st) == signal.SIGXCPU else "crash-signal", f"killed by signal {os.WTERMSIG(st)}"), err
    if os.WEXITSTATUS(st) == 76:
        l = next((x for x in err.splitlines() if "ERROR: AddressSanitizer" in x), "")
        l = l[l.find("AddressSanitizer"):].split(" on ")[0].split(" 0x")[0]
        return None, ("crash-asan", l), err
    return None, ("internal", err[-500:]), err


def run(ops):
    a, ca, ea = child(ops, True)
    h = hashlib.sha256()
    res = {"viol": [], "err": None, "fired": {}, "stat": {}, "stderr": "", "compares": 0}
    for who, c, e in (("keeping", ca, ea),):
        if c:
            if c[0] == "internal":
                res["err"] = c[1]
            else:
                res["viol"].append([c[0], f"{c[1]} (with all references kept)"])
            res["stderr"] = e
    b = None
    if not ca:
        for v in a["viol"]:
            res["viol"].append(v)
        b, cb, eb = child(ops, False)
        if cb:
            if cb[0] == "internal":
                res["err"] = cb[1]
            else:
                res["viol"].append([cb[0], cb[1]])
            res["stderr"] = eb
        else:
            res["fired"], res["stat"] = b["fired"], b["stat"]
            res["compares"] = len(b["log"])
            for v in b["viol"]:
                res["viol"].append(v)
            la, lb = a["log"], b["log"]
            if la != lb:
                k = next((j for j in range(min(len(la), len(lb))) if la[j] != lb[j]), min(len(la), len(lb)))
                x = la[k] if k < len(la) else None
                y = lb[k] if k < len(lb) else None
                res["viol"].append(["value-differs", f"with all references kept {json.dumps(x)[:260]}, after drops {json.dumps(y)[:260]}"])
    # the hash covers what happened up to the first disagreement: what freed memory holds after it is not the plan's to decide
    log = a["log"] if a else []
    if b:
        k = next((j for j in range(min(len(log), len(b["log"]))) if log[j] != b["log"][j]), min(len(log), len(b["log"])))
        log = log[:k] if res["viol"] else log
    bad = min([v[2] for v in res["viol"] if len(v) > 2] or [1 << 30])
    h.update(json.dumps([x for x in log if x[0] < bad]).encode())
    for v in res["viol"]:
        h.update(v[0].encode())
    res["hash"] = h.hexdigest()[:16]
    return res


def minimise(ops, cls, secs):
    t = time.time()

    def fails(o):
        return any(v[0] == cls for v in run(o)["viol"])
    n = 2
    while len(ops) > 1 and time.time() - t < secs:
        step = max(1, len(ops) // n)
        done = False
        for i in range(0, len(ops), step):
            c = ops[:i] + ops[i + step:]
            if c and fails(c):
                ops, done = c, True
                n = max(n - 1, 2)
                break
            if time.time() - t > secs:
                break
        if not done:
            if step == 1:
                break
            n = min(n * 2, len(ops))
    return ops


def main():
    cmd = sys.argv[1]
    run([{"op": "new", "dst": 1, "cls": "FactorGraph", "args": []}])
    gc.collect()
    gc.freeze()
    if cmd == "batch":
        start, stride, secs, outf = int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
        t0 = time.time()
        R = {"runs": 0, "errors": 0, "errinfo": "", "fired": {}, "stat": {}, "hashes": [], "viol": [], "samples": [], "compares": 0, "ops": 0, "states": []}
        hs, cls, states = set(), set(), set()
        s = start
        cnt = int(sys.argv[6]) if len(sys.argv) > 6 else 10**9
        while time.time() - t0 < secs and R["runs"] < cnt:
            ops = Gen(s).build()
            q = run(ops)
            R["runs"] += 1
            R["ops"] += len(ops)
            if q["err"]:
                R["errors"] += 1
                R["errinfo"] = f"seed {s}: {q['err']}"
            R["compares"] += q["compares"]
            for k in ("fired", "stat"):
                for a, b in q[k].items():
                    R[k][a] = R[k].get(a, 0) + b
            hs.add(q["hash"])
            states.add(tuple(sorted((a, min(b, 3)) for a, b in list(q["fired"].items()) + list(q["stat"].items()))))
            R["hashes"].append([s, q["hash"]])
            if len(R["samples"]) < 1 and q["compares"] > 20:
                R["samples"].append(json.dumps(ops)[:4000])
            if q["viol"] and q["viol"][0][0] not in cls and len(R["viol"]) < 3:
                cls.add(q["viol"][0][0])
                R["viol"].append({"seed": s, "cls": q["viol"][0][0], "detail": q["viol"][0][1], "ops": ops, "hash": q["hash"]})
                secs = min(secs, time.time() - t0 + 4)
            s += stride
        R["distinct"] = len(hs)
        R["states"] = len(states)
        json.dump(R, open(outf, "w"))
    elif cmd == "replay":
        q = run(json.load(open(sys.argv[2]))["ops"])
        q.pop("fired")
        print(json.dumps(q))
    elif cmd == "min":
        d = json.load(open(sys.argv[2]))
        d["ops"] = minimise(d["ops"], sys.argv[4], float(sys.argv[5]))
        json.dump(d, open(sys.argv[3], "w"), indent=0)
    elif cmd == "gen":
        print(json.dumps(Gen(int(sys.argv[2])).build(), indent=0))
    sys.stdout.flush()
    os._exit(0)


main()
