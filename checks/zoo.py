"""Estimators, hyper-parameters and data for C07 (uninstrumented)."""
import copy
import functools
import inspect
import pickle
import warnings

import numpy as np
from sklearn.experimental import enable_halving_search_cv, enable_iterative_imputer  # noqa: F401

import deep

warnings.filterwarnings("ignore")
N = 24


@functools.lru_cache(None)
def classes():
    from sklearn.utils import all_estimators
    return [c for n, c in all_estimators() if n != "Birch" and make(c) is not None]


@functools.lru_cache(None)
def has_default(c):
    return make(c) is not None


SMALL = {"n_estimators": 2, "max_iter": 5, "n_components": 2, "n_init": 1, "n_iter": 5, "cv": 2, "n_splits": 2, "random_state": 0,
         "n_resampling": 2, "batch_size": 10, "n_subsets": 4, "n_alphas": 3, "n_trials": 3, "min_samples_leaf": 2}
OWN = {"n_iter": {"BayesianRidge": None, "ARDRegression": None}, "n_components": {"SparseRandomProjection": 2, "GaussianRandomProjection": 2},
       "min_samples_leaf": {}}


def make(c):
    """An instance with small parameters, None when there is none."""
    try:
        sig = inspect.signature(c.__init__).parameters
        kw = {k: v for k, v in SMALL.items() if k in sig and k != "min_samples_leaf"}
        if c.__name__ in ("LinearDiscriminantAnalysis", "CCA", "PLSCanonical", "PLSRegression", "PLSSVD"):
            kw["n_components"] = 1
        if c.__name__ == "SparseCoder":
            kw["dictionary"] = np.random.RandomState(0).randint(-2, 3, (5, 4)).astype(float)
        if c.__name__ == "QuantileRegressor":
            kw["solver"] = "highs"
        if c.__name__ == "SkewedChi2Sampler":
            kw["skewedness"] = 20
        if c.__name__ in ("GridSearchCV", "HalvingGridSearchCV"):
            from sklearn.linear_model import LogisticRegression
            return c(LogisticRegression(), {"C": [1, 2]}, cv=2)
        if c.__name__ in ("RandomizedSearchCV", "HalvingRandomSearchCV"):
            from sklearn.linear_model import LogisticRegression
            return c(LogisticRegression(), {"C": [1, 2, 3]}, cv=2, random_state=0)
        if c.__name__ == "Pipeline":
            return c([("a", inner("scaler")), ("b", inner("clf"))])
        if c.__name__ == "FeatureUnion":
            return c([("a", inner("scaler")), ("b", inner("pca"))])
        if c.__name__ == "ColumnTransformer":
            return c([("a", inner("scaler"), [0, 1]), ("b", inner("pca"), slice(1, 4))], remainder="passthrough")
        if c.__name__ in ("VotingClassifier", "StackingClassifier"):
            return c([("a", inner("clf")), ("b", inner("tree"))])
        if c.__name__ in ("VotingRegressor", "StackingRegressor"):
            return c([("a", inner("reg")), ("b", inner("rtree"))])
        if "estimator" in sig and sig["estimator"].default is inspect.Parameter.empty:
            from sklearn.base import is_regressor
            kw["estimator"] = inner("reg") if "Regress" in c.__name__ else inner("clf")
        if "base_estimator" in sig and sig["base_estimator"].default is inspect.Parameter.empty:
            kw["base_estimator"] = inner("reg") if "Regress" in c.__name__ else inner("clf")
        if "transformers" in sig and sig["transformers"].default is inspect.Parameter.empty:
            return None
        return c(**kw)
    except Exception:
        return None


def inner(k):
    from sklearn.decomposition import PCA
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.preprocessing import FunctionTransformer, StandardScaler
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    return {"clf": lambda: LogisticRegression(C=3), "reg": lambda: Ridge(alpha=0.5), "tree": lambda: DecisionTreeClassifier(max_depth=2, random_state=0),
            "rtree": lambda: DecisionTreeRegressor(max_depth=2, random_state=0), "scaler": lambda: StandardScaler(with_std=False), "pca": lambda: PCA(2),
            "ufunc": lambda: FunctionTransformer(np.log1p, inverse_func=np.expm1, check_inverse=False)}[k]()


# ----------------------------------------------------------- hyper-parameters
class Range:
    """All integers of an interval."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


@functools.lru_cache(None)
def space(c):
    """[(parameter, values, interval or None)] according to the class's own constraints"""
    from numbers import Integral, Real

    from sklearn.utils._param_validation import Interval, MissingValues, Options, StrOptions
    out = []
    e = make(c)
    params = e.get_params(deep=False)
    for p, cs in sorted((getattr(c, "_parameter_constraints", None) or {}).items()):
        if p not in params or p in ("n_jobs", "verbose", "memory", "estimators", "steps", "transformer_list", "transformers", "estimator", "param_grid",
                                    "param_distributions", "base_estimator", "dictionary") or not isinstance(cs, list):
            continue
        vals, rng = [], None
        for k in cs:
            if isinstance(k, Interval):
                lo = k.left if k.left is not None and np.isfinite(k.left) else -3
                hi = k.right if k.right is not None and np.isfinite(k.right) else None
                if k.type is Integral:
                    lo = int(lo) + (k.closed in ("right", "neither") and k.left is not None)
                    vals += [lo, lo + 1, lo + 2]
                    rng = Range(int(lo), int(hi) if hi is not None else int(lo) + 1000)
                else:
                    vals += [lo + 0.25, float(lo) + 0.5, lo + 1e-3] + ([hi] if hi is not None and k.closed in ("right", "both") else [1.5, 3.0 if p == "code_size" else 1e6])
                    if k.closed in ("left", "both"):
                        vals.append(float(lo))
            elif isinstance(k, StrOptions):
                vals += sorted(k.options)
            elif isinstance(k, Options):
                vals += sorted(k.options, key=str)
            elif isinstance(k, MissingValues):
                vals += [np.nan, 0, "constant"]
            elif k == "boolean":
                vals += [True, False]
            elif k is None:
                vals.append(None)
            elif k == "random_state":
                vals += ["RandomState", 3]
            elif k == "array-like":
                vals += ["array"]
            elif k is callable or k == "callable":
                vals += ["callable"]
            elif k is dict:
                vals += ["dict"]
            elif k == "cv_object":
                vals += [2, "KFold"]
            elif k == "verbose":
                pass
            elif isinstance(k, type) and k in (np.float64, np.float32):
                vals.append(k)
        seen, uniq = set(), []
        for v in vals:
            if repr(v) not in seen and not (isinstance(v, str) and v == "deprecated"):
                seen.add(repr(v))
                uniq.append(v)
        if uniq:
            out.append((p, tuple(uniq), rng))
    return tuple(out)


def value_of(c, p, v):
    """The value a symbol of space() stands for."""
    if v == "RandomState" and isinstance(v, str):
        return np.random.RandomState(7)
    if isinstance(v, str) and v == "KFold":
        from sklearn.model_selection import KFold
        return KFold(2)
    if isinstance(v, str) and v == "dict":
        return {0: 1.5, 1: 2.0}
    if isinstance(v, str) and v == "array":
        return np.array([0.5, 0.25])
    if isinstance(v, str) and v == "callable":
        return np.abs if c.__name__ == "FunctionTransformer" else own_callable(p)
    return v


def own_callable(p):
    if p in ("metric", "affinity", "distance_metric", "metric_params"):
        return dist
    if p == "kernel":
        return kern
    return auto


def dist(a, b):
    return float(np.abs(a - b).sum())


def kern(a, b, **kw):
    if a.ndim == 1:
        return float(a @ b)
    return a @ b.T


def auto(*a, **kw):
    return getattr(a[0], "mean", lambda: 1)()


# ----------------------------------------------------------------------- data
XS = ["float", "F", "float32", "counts", "csr", "csc", "frame", "nan", "strings", "mixed", "negative", "text", "wide"]
YS = ["two", "three", "str", "bool", "real", "real2", "multilabel", "none", "objstr", "floatlabels", "series"]


@functools.lru_cache(None)
def data(k):
    import pandas as pd
    import scipy.sparse as sp
    r = np.random.RandomState(1)
    a = r.rand(N, 4) + 0.1
    if k == "float":
        return a
    if k == "F":
        return np.asfortranarray(a)
    if k == "float32":
        return a.astype("f4")
    if k == "counts":
        return r.randint(0, 4, (N, 4))
    if k == "csr":
        return sp.csr_matrix(a * (a > 0.5))
    if k == "csc":
        return sp.csc_matrix(a * (a > 0.5))
    if k == "frame":
        return pd.DataFrame(a, columns=["a", "b", "\u00e9", "d e"])
    if k == "nan":
        b = a.copy()
        b[3, 1] = b[5, 2] = np.nan
        return b
    if k == "strings":
        return np.array([["u", "v", "w"][i] for i in r.randint(0, 3, N * 2)], dtype=object).reshape(N, 2)
    if k == "mixed":
        return pd.DataFrame({"n": a[:, 0], "c": pd.Categorical([["u", "v"][i] for i in r.randint(0, 2, N)]), "s": [["p", "q", "rr"][i % 3] for i in range(N)]})
    if k == "negative":
        return r.randn(N, 4) * 10
    if k == "text":
        return [["a b c", "b c d", "x y", "a x"][i % 4] + " w%d" % (i % 5) for i in range(N)]
    return r.rand(N, 9)


@functools.lru_cache(None)
def target(k):
    import pandas as pd
    r = np.random.RandomState(2)
    i = np.arange(N)
    return {"two": i % 2, "three": i % 3, "str": np.array(["no", "yes!"])[i % 2], "bool": (i % 2).astype(bool), "real": r.rand(N) * 3 + 0.5, "real2": r.rand(N, 2),
            "multilabel": np.stack([i % 2, (i // 2) % 2, (i // 3) % 2], 1), "none": None, "objstr": np.array(["a", "b", "c"], dtype=object)[i % 3],
            "floatlabels": (i % 2).astype(float), "series": pd.Series(i % 2, name="t")}[k]


def compat(c):
    """Data worth trying for a class."""
    from sklearn.base import ClusterMixin
    n = c.__name__
    kind = getattr(c, "_estimator_type", None)
    ys = (["two", "three", "str", "bool", "multilabel", "objstr", "floatlabels", "series"] if kind == "classifier" else
          ["real", "real2", "series"] if kind == "regressor" else ["none", "two", "real"])
    if n == "IsotonicRegression":
        ys = ["real"]
    xs = XS
    if n in ("MultiTaskLasso", "MultiTaskElasticNet", "MultiTaskLassoCV", "MultiTaskElasticNetCV"):
        ys = ["real2"]
    if n in ("MultiOutputClassifier", "ClassifierChain"):
        ys = ["multilabel"]
    if n in ("MultiOutputRegressor", "RegressorChain", "PLSCanonical", "CCA", "PLSSVD", "PLSRegression"):
        ys = ["real2", "real"]
    if n in ("LabelBinarizer", "LabelEncoder", "MultiLabelBinarizer"):
        return ["labels"], ["none"]
    if n in ("CountVectorizer", "TfidfVectorizer", "HashingVectorizer"):
        return ["text"], ["none"]
    if n in ("DictVectorizer", "FeatureHasher"):
        return ["dicts"], ["none"]
    if n == "PatchExtractor":
        return ["images"], ["none"]
    if n in ("OneHotEncoder", "OrdinalEncoder", "TargetEncoder"):
        xs = ["strings", "mixed", "counts", "nan"]
        ys = ["two", "three", "real", "str"]
    return [x for x in xs if x != "text"], ys


def special(c, k):
    n = c.__name__
    if k == "labels":
        if n == "MultiLabelBinarizer":
            return [("a", "b"), ("b",), ("c",), ()]
        return np.array(["x", "y", "z"] * 4)
    if k == "dicts":
        return [{"a": 1, "b": "u"}, {"a": 2, "c": 3.5}, {"b": "v"}]
    return np.random.RandomState(0).rand(3, 6, 6)


def fit(e, x, y):
    """The fitted estimator or None."""
    X = special(type(e), x) if x in ("labels", "dicts", "images") else data(x)
    yy = target(y)
    if type(e).__name__ == "IsotonicRegression":
        X = data("float")[:, 0]
    np.random.seed(0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            e = copy.deepcopy(e)
            if yy is None:
                e.fit(X)
            else:
                e.fit(X, yy)
        except Exception:
            return None
    return e


METHODS = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform", "score_samples", "inverse_transform", "get_feature_names_out",
           "predict_joint_log_proba", "apply", "kneighbors", "staged_predict"]


def outputs(e, x):
    """{method and input: output or type of the exception}; e is not modified."""
    X = special(type(e), x) if x in ("labels", "dicts", "images") else data(x)
    inputs = {"seen": X}
    if type(e).__name__ == "IsotonicRegression":
        inputs = {"seen": data("float")[:, 0]}
    elif x in ("float", "F", "csr", "negative", "frame"):
        o = np.random.RandomState(5).randn(7, 4)
        if x == "frame":
            import pandas as pd
            o = pd.DataFrame(o, columns=X.columns)
        inputs["new"] = o
    out = {}
    for k, Z in inputs.items():
        for m in METHODS:
            if k == "new" and m == "get_feature_names_out":
                continue
            try:
                f = getattr(e, m)
            except Exception:
                continue
            np.random.seed(0)
            try:
                c = copy.deepcopy(e)
                f = getattr(c, m)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if m == "get_feature_names_out":
                        r = f()
                    elif m == "inverse_transform":
                        r = f(copy.deepcopy(e).transform(Z))
                    elif m == "staged_predict":
                        r = list(f(Z))
                    else:
                        r = f(Z)
                    out[m + " " + k] = norm(r)
            except Exception as exc:
                out[m + " " + k] = "raises " + type(exc).__name__
    return out


def norm(r):
    import pandas as pd
    import scipy.sparse as sp
    if isinstance(r, pd.DataFrame):
        return ["frame", list(r.columns), r.to_numpy(), [str(t) for t in r.dtypes]]
    if sp.issparse(r):
        return ["sparse", r.format, r.toarray()]
    if isinstance(r, (list, tuple)):
        return [norm(v) for v in r]
    return r


def first_difference(e, l, x):
    """A method whose output on the loaded estimator is another one, or None; outputs that vary
    between copies of the original are left out."""
    a = outputs(e, x)
    b = outputs(l, x)
    for k in a:
        if k not in b:
            return "missing " + k
        if deep.same(a[k], b[k]) is not True:
            # vary between runs, or with the place of the arrays in memory
            for c in (e, pickle.loads(pickle.dumps(e)), copy.deepcopy(e)):
                if deep.same(a[k], outputs(c, x).get(k)) is not True:
                    break
            else:
                return k
    return None


@functools.lru_cache(None)
def estimator_names():
    from sklearn.utils import all_estimators
    return {c.__module__ + "." + c.__qualname__ for n, c in all_estimators()}


def untrusted_family(names):
    """Names of default-trusted families among the untrusted ones.  Estimators only when
    scikit-learn lists them; skops reports the classes of sparse matrices and dtype."""
    import families
    from sklearn.base import BaseEstimator
    bad = []
    for n in names:
        m, _, c = n.rpartition(".")
        try:
            o = families.resolve(m, c)
        except Exception:
            continue
        if isinstance(o, type) and issubclass(o, BaseEstimator):
            if n in estimator_names():
                bad.append(n)
        elif isinstance(o, type) and (o is np.dtype or (o.__module__ or "").startswith("scipy.sparse") or issubclass(o, np.random.BitGenerator)):
            pass
        elif o is not None and families.is_family(o):
            bad.append(n)
    return bad


# ------------------------------------------------------------ fitted, with cache
_unfit = set()


def fitted(c, params, x, y):
    """A fitted estimator of the class with the indexed values of parameters, or None."""
    if (c, params, x, y) in _unfit:
        return None
    e = make(c)
    for p, i in params:
        setattr(e, p, value_of(c, p, dict((q, v) for q, v, r in space(c))[p][i]))
    e = fit(e, x, y)
    if e is None:
        _unfit.add((c, params, x, y))
    return e


def composed(n, fit_it):
    f, x, y = compositions()[n]
    return fit(f(), x, y) if fit_it else f()


@functools.lru_cache(None)
def simplest(c):
    """Data and target on which the default instance can be fitted."""
    xs, ys = compat(c)
    return [(x, y) for x in xs[:6] for y in ys if fitted(c, (), x, y) is not None][:4]


# ------------------------------------------------ fitted attributes to vary
def leaves(e, cap=60):
    """Places of plain values inside of an estimator: [(container, key, kind)]"""
    out, seen = [], set()

    def go(o, d):
        if id(o) in seen or d > 5 or len(out) >= cap:
            return
        seen.add(id(o))
        if isinstance(o, dict):
            items = list(o.items())
            box = o
            if type(o).__name__ == "Bunch":      # copies lose it
                vars(o).setdefault("_deprecated_key_to_warnings", {})
        elif type(o) is list:
            items, box = list(enumerate(o)), o
        elif hasattr(o, "__dict__") and (type(o).__module__ or "").startswith("sklearn") and not isinstance(o, type) and not callable(getattr(o, "__code__", None)):
            items, box = list(vars(o).items()), vars(o)
        else:
            return
        for k, v in items:
            if k == "_sklearn_output_config":
                continue
            if type(v) in (int, str, bool, float) or v is None:
                out.append((box, k, type(v).__name__))
            elif isinstance(v, np.generic) and v.dtype.kind in "fiub":
                out.append((box, k, "np"))
            else:
                go(v, d + 1)
    go(e, 0)
    return out[:cap]


def clone(e):
    return copy.deepcopy(e)


def keeps(v):
    """A copy of v is equal to v."""
    try:
        return deep.same(v, pickle.loads(pickle.dumps(v))) is True
    except Exception:
        return True


def clone_plain(e):
    """A copy that keeps symbolic values."""
    e2 = type(e).__new__(type(e))
    for k, v in vars(e).items():
        e2.__dict__[k] = v if type(v).__module__.startswith("symx") else copy.deepcopy(v)
    return e2


def same(a, b):
    return deep.same(a, b) is True


def set_param(e, p, v):
    setattr(e, p, v)


def get_at(box, k):
    return box[k]


def set_at(box, k, v):
    box[k] = v


def compositions():
    """name -> maker of (estimator, data, target)"""
    from sklearn.calibration import CalibratedClassifierCV
    from sklearn.compose import ColumnTransformer, TransformedTargetRegressor, make_column_selector
    from sklearn.ensemble import (AdaBoostClassifier, BaggingClassifier, BaggingRegressor, HistGradientBoostingClassifier, IsolationForest, RandomForestClassifier,
                                  StackingClassifier, VotingClassifier, VotingRegressor)
    from sklearn.feature_extraction.text import TfidfVectorizer
    from sklearn.feature_selection import RFE, RFECV, SelectFromModel, SelectKBest, SequentialFeatureSelector, chi2
    from sklearn.gaussian_process import GaussianProcessRegressor, kernels
    from sklearn.impute import IterativeImputer, SimpleImputer
    from sklearn.linear_model import LogisticRegression, Ridge, SGDClassifier
    from sklearn.model_selection import GridSearchCV, KFold, RandomizedSearchCV
    from sklearn.multiclass import OneVsOneClassifier, OneVsRestClassifier, OutputCodeClassifier
    from sklearn.multioutput import ClassifierChain, MultiOutputClassifier, RegressorChain
    from sklearn.neighbors import KNeighborsClassifier, KernelDensity, NearestNeighbors
    from sklearn.pipeline import FeatureUnion, Pipeline, make_pipeline
    from sklearn.preprocessing import FunctionTransformer, KBinsDiscretizer, OneHotEncoder, OrdinalEncoder, PolynomialFeatures, SplineTransformer, StandardScaler
    from sklearn.semi_supervised import SelfTrainingClassifier
    from sklearn.svm import SVC
    I = inner
    rs = np.random.RandomState
    part = functools.partial
    R = {
        "pipe-ufunc": (lambda: Pipeline([("u", I("ufunc")), ("s", I("scaler")), ("m", I("clf"))]), "float", "str"),
        "pipe-passthrough": (lambda: Pipeline([("a", "passthrough"), ("b", None), ("m", I("reg"))]), "F", "real"),
        "pipe-nested": (lambda: Pipeline([("p", Pipeline([("q", FeatureUnion([("a", I("scaler")), ("b", Pipeline([("x", PolynomialFeatures(2)), ("y", I("pca"))]))]))])), ("m", I("tree"))]), "frame", "three"),
        "union-weights": (lambda: FeatureUnion([("a", I("scaler")), ("b", I("pca")), ("c", "passthrough"), ("d", "drop")], transformer_weights={"a": 2.0, "b": 0.5}), "float", "none"),
        "columns-names": (lambda: ColumnTransformer([("n", I("scaler"), ["n"]), ("c", OneHotEncoder(handle_unknown="ignore"), ["c", "s"])], sparse_threshold=1.0), "mixed", "two"),
        "columns-selector": (lambda: ColumnTransformer([("n", I("scaler"), make_column_selector(dtype_include=float)), ("c", OrdinalEncoder(), make_column_selector(pattern="[cs]"))]), "mixed", "none"),
        "columns-bool": (lambda: ColumnTransformer([("n", I("scaler"), [True, False, True, False]), ("o", I("pca"), np.array([1, 3]))], remainder=I("ufunc")), "float", "none"),
        "columns-slices": (lambda: ColumnTransformer([("n", I("scaler"), slice(None, 2)), ("o", "passthrough", slice(-2, None)), ("d", "drop", 0)]), "float", "none"),
        "columns-neg": (lambda: ColumnTransformer([("n", I("ufunc"), [-1]), ("o", I("scaler"), [-2, 0])], verbose_feature_names_out=False), "float32", "none"),
        "columns-str-slice": (lambda: ColumnTransformer([("n", I("scaler"), slice("a", "b")), ("o", "passthrough", ["d e"])]), "frame", "none"),
        "search": (lambda: GridSearchCV(Pipeline([("s", I("scaler")), ("m", I("clf"))]), {"m__C": [1, 2.5], "s__with_mean": [True, False]}, cv=KFold(2), return_train_score=True), "float", "two"),
        "search-estimators": (lambda: GridSearchCV(Pipeline([("s", I("scaler")), ("m", I("clf"))]), [{"m": [I("clf"), I("tree")]}, {"s": ["passthrough"], "m__C": np.array([1.0, 2.0])}], cv=2), "float", "two"),
        "search-multi": (lambda: GridSearchCV(I("clf"), {"C": [1, 2]}, scoring=["accuracy", "f1"], refit="f1", cv=2), "float", "two"),
        "random-search": (lambda: RandomizedSearchCV(I("reg"), {"alpha": [0.1, 1, 10], "solver": ["svd", "lsqr"]}, n_iter=3, random_state=rs(3), cv=2), "float", "real"),
        "voting-soft": (lambda: VotingClassifier([("a", I("clf")), ("b", I("tree")), ("c", "drop")], voting="soft", weights=[1, 2.5, 1]), "float", "str"),
        "voting-reg": (lambda: VotingRegressor([("a", I("reg")), ("b", I("rtree"))], weights=np.array([0.25, 0.75])), "float", "real"),
        "stacking": (lambda: StackingClassifier([("a", I("clf")), ("b", make_pipeline(I("ufunc"), I("tree")))], final_estimator=I("tree"), passthrough=True, cv=2), "float", "three"),
        "bagging": (lambda: BaggingClassifier(make_pipeline(I("scaler"), I("clf")), n_estimators=2, max_features=2, bootstrap_features=True, random_state=rs(2), oob_score=False), "float", "str"),
        "bagging-reg": (lambda: BaggingRegressor(I("rtree"), n_estimators=2, max_samples=0.5, random_state=1), "csr", "real"),
        "ada": (lambda: AdaBoostClassifier(I("tree"), n_estimators=2, algorithm="SAMME", random_state=0), "float", "three"),
        "forest-warm": (lambda: RandomForestClassifier(2, warm_start=True, oob_score=True, bootstrap=True, random_state=rs(4), class_weight={0: 1, 1: 2.5}), "float", "two"),
        "hist-cat": (lambda: HistGradientBoostingClassifier(max_iter=2, categorical_features=[True, False, False, False], monotonic_cst=[0, 1, -1, 0], random_state=0), "counts", "two"),
        "hist-frame": (lambda: HistGradientBoostingClassifier(max_iter=2, categorical_features="from_dtype", random_state=0), "mixed1", "str"),
        "hist-nan": (lambda: HistGradientBoostingClassifier(max_iter=2, interaction_cst=[{0, 1}, {2, 3}], random_state=0), "nan", "three"),
        "isolation": (lambda: IsolationForest(n_estimators=2, random_state=rs(0), contamination=0.2), "float", "none"),
        "calibrated": (lambda: CalibratedClassifierCV(SVC(kernel="rbf", gamma=0.5), method="isotonic", cv=2), "float", "two"),
        "calibrated-sigmoid": (lambda: CalibratedClassifierCV(I("tree"), method="sigmoid", cv=2, ensemble=False), "float", "str"),
        "ttr": (lambda: TransformedTargetRegressor(I("reg"), func=np.log1p, inverse_func=np.expm1), "float", "real"),
        "ttr-transformer": (lambda: TransformedTargetRegressor(I("rtree"), transformer=StandardScaler()), "float", "real2"),
        "ovr": (lambda: OneVsRestClassifier(I("clf")), "csr", "multilabel"),
        "ovo": (lambda: OneVsOneClassifier(SVC()), "float", "objstr"),
        "code": (lambda: OutputCodeClassifier(I("clf"), code_size=1.5, random_state=rs(1)), "float", "three"),
        "chain": (lambda: ClassifierChain(I("clf"), order=[2, 0, 1], random_state=0), "float", "multilabel"),
        "chain-random": (lambda: RegressorChain(I("reg"), order="random", random_state=rs(1)), "float", "real2"),
        "multi": (lambda: MultiOutputClassifier(I("tree")), "F", "multilabel"),
        "rfe": (lambda: RFE(I("tree"), n_features_to_select=2, step=0.5), "float", "two"),
        "rfecv": (lambda: RFECV(I("reg"), cv=2, min_features_to_select=2), "float", "real"),
        "frommodel": (lambda: SelectFromModel(I("clf"), threshold="1.25*mean", prefit=False), "frame", "two"),
        "kbest": (lambda: make_pipeline(SelectKBest(chi2, k=2), I("clf")), "counts", "two"),
        "sequential": (lambda: SequentialFeatureSelector(I("reg"), n_features_to_select=2, cv=2), "float", "real"),
        "gp": (lambda: GaussianProcessRegressor(kernels.ConstantKernel(2.0) * kernels.RBF([1.0, 2.0, 3.0, 4.0]) + kernels.WhiteKernel(0.1), n_restarts_optimizer=1, random_state=0), "float", "real"),
        "gp-kernels": (lambda: GaussianProcessRegressor(kernels.Exponentiation(kernels.Matern(nu=2.5), 2) + kernels.RationalQuadratic() * kernels.DotProduct(), optimizer=None, normalize_y=True), "float", "real2"),
        "tfidf": (lambda: make_pipeline(TfidfVectorizer(ngram_range=(1, 2), token_pattern=r"\w+", stop_words=["a"], max_df=0.9), I("clf")), "text", "two"),
        "tfidf-vocab": (lambda: TfidfVectorizer(vocabulary={"a": 0, "b": 1, "x": 2}, token_pattern=r"\w", dtype=np.float32, norm=None), "text", "none"),
        "impute": (lambda: SimpleImputer(strategy="constant", fill_value=-1, add_indicator=True), "nan", "none"),
        "impute-str": (lambda: SimpleImputer(strategy="most_frequent", missing_values="u"), "strings", "none"),
        "iterative": (lambda: IterativeImputer(I("reg"), max_iter=2, random_state=rs(0), sample_posterior=False, n_nearest_features=2), "nan", "none"),
        "knn-metric": (lambda: KNeighborsClassifier(2, metric=dist, weights="distance"), "float", "two"),
        "knn-mahalanobis": (lambda: NearestNeighbors(n_neighbors=2, metric="seuclidean", metric_params={"V": np.array([1.0, 2.0, 3.0, 0.5])}), "float", "none"),
        "kde": (lambda: KernelDensity(bandwidth="scott", algorithm="ball_tree", metric="haversine"), "two columns", "none"),
        "kd-minkowski": (lambda: KNeighborsClassifier(2, algorithm="kd_tree", p=3, leaf_size=3), "F", "str"),
        "svc-sparse": (lambda: SVC(probability=True, random_state=0, class_weight="balanced", decision_function_shape="ovo"), "csr", "three"),
        "svc-kernel": (lambda: SVC(kernel=kern), "float", "two"),
        "sgd-losses": (lambda: SGDClassifier(loss="modified_huber", max_iter=3, tol=None, average=2, random_state=rs(2)), "csr", "three"),
        "selftrain": (lambda: SelfTrainingClassifier(I("clf"), threshold=0.6, criterion="k_best", k_best=2), "float", "two"),
        "onehot": (lambda: OneHotEncoder(categories=[["u", "v", "w"], ["w", "v", "u"]], drop=np.array(["u", "w"], dtype=object), min_frequency=None, dtype="i4"), "strings", "none"),
        "onehot-infrequent": (lambda: OneHotEncoder(min_frequency=0.4, handle_unknown="infrequent_if_exist", sparse_output=False), "strings", "none"),
        "ordinal": (lambda: OrdinalEncoder(handle_unknown="use_encoded_value", unknown_value=np.nan, encoded_missing_value=-7), "mixed1", "none"),
        "bins": (lambda: KBinsDiscretizer(3, encode="onehot-dense", strategy="kmeans", random_state=0), "float", "none"),
        "spline": (lambda: SplineTransformer(n_knots=3, degree=2, extrapolation="periodic", knots="quantile"), "float", "none"),
        "ft-partial": (lambda: FunctionTransformer(part(np.add, 2.5), kw_args={"dtype": np.dtype("f8")}, feature_names_out="one-to-one"), "frame", "none"),
        "ft-pandas": (lambda: StandardScaler().set_output(transform="pandas"), "frame", "none"),
        "pipe-pandas": (lambda: make_pipeline(StandardScaler(), I("pca")).set_output(transform="pandas"), "float", "none"),
        "logistic-shared": (lambda: shared_state(), "float", "two"),
    }
    return R


def shared_state():
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import QuantileTransformer
    r = np.random.RandomState(9)
    return Pipeline([("a", QuantileTransformer(n_quantiles=5, random_state=r)), ("b", RandomForestClassifier(2, random_state=r))])


_data0 = data


@functools.lru_cache(None)
def data(k):  # noqa: F811
    if k == "two columns":
        return _data0("float")[:, :2].copy()
    if k == "mixed1":
        return _data0("mixed")[["c"]].copy()
    return _data0(k)


for _n, _f in list(globals().items()):
    if callable(_f) and getattr(_f, "__module__", None) == __name__ and not isinstance(_f, type):
        try:
            _f._sx_direct = True
        except AttributeError:
            pass
