"""Generates programs and call histories. Everything is drawn from one PRNG."""
from sim.lang import EXC, EXC_ANY, EXC_ENV

CLASSES = [("AlphaNet", "alpha_net"), ("Beta", "beta"), ("GammaBlock", "gamma_block"),
           ("Foo", "foo")]
MODNAMES = [None, None, None, None, "foo", "foo", "foo_1", "foo_2", "bar",
            "alpha_net", "beta_1", "x1"]
SHAPES = [[2], [2], [1], [2, 3], [2, 3], [3, 2], [2, 2], [1, 2], [0]]
SCOPES = ["sc", "sc", "foo", "sc/inner", "foo_1", "a/b/c"]
BADSCOPES = ["/sc", "", "a/b c", "sc/9x", "sc/", "x1/y/foo-1"]

# Statement weights; a profile overrides some of them.
BASE = dict(param=6, gets=4, getsn=1, sets=4, key=4, mod=5, call=7, scope=2,
            rng=2, creator=2, getter=2, icept=2, try_=3, raise_=3, pdict=2,
            nested=1, lift=1, spawn=0, reserve=1, ifinit=1, arg=2, loop=1, efault=0, opt=0, poke=0,
            jit=0, cond=0, switch=0, scan=0, fori=0, while_=0, vmap=0, grad=0,
            eshape=0)
WRAPPERS = ("jit", "cond", "switch", "scan", "fori", "while_", "vmap", "grad",
            "eshape")


class G:

  def __init__(self, rng, weights, opts=None):
    self.rng = rng
    self.w = dict(BASE)
    self.w.update(weights)
    self.opts = opts or {}
    self.progs = []
    self.nsite = 0
    self.ntag = 0
    self.chain = False

  def pick(self, seq):
    return seq[self.rng.randrange(len(seq))]

  def chance(self, p):
    return self.rng.random() < p

  def site(self):
    self.nsite += 1
    s = "s%d" % self.nsite
    self.sites.append(s)
    return s

  def tag(self):
    self.ntag += 1
    return self.ntag * 17 + self.rng.randrange(10)

  # --------------------------------------------------------------- programs

  def program(self, stateless=False, inner=False, size=None):
    rng = self.rng
    saved = getattr(self, "sites", None), getattr(self, "feat", None), \
        getattr(self, "budget", None), getattr(self, "classes", None), \
        getattr(self, "wrapped", None), getattr(self, "made", None), self.chain
    self.sites = []
    f = {}
    hooks = self.chance(0.5)
    for k, w in self.w.items():
      f[k] = w if self.chance(0.75) else 0
    for k in ("param", "call", "mod"):
      f[k] = self.w[k]
    if hooks:
      f["nested"] = f["lift"] = 0
    else:
      f["creator"] = f["getter"] = f["icept"] = 0
    if inner:
      f["nested"] = f["lift"] = f["spawn"] = 0
      for k in WRAPPERS:
        if not self.chance(0.2):
          f[k] = 0
    wrappers = any(f[k] for k in WRAPPERS)
    if wrappers:
      f["opt"] = 0
      # Which keys exist after a reservation inside control flow is not exact.
      if not self.opts.get("inexact"):
        f["reserve"] = 0
    if stateless:
      f["gets"] = f["getsn"] = f["sets"] = 0
    self.feat = f
    self.wrapped = wrappers
    prog = {"classes": [], "body": []}
    n = rng.choice([0, 1, 1, 2, 2, 3]) if not inner else rng.choice([0, 1])
    self.chain = (bool(self.opts.get("chain")) and not inner
                  and self.chance(self.opts["chain"]))
    if self.chain:
      n = rng.choice([3, 3, 4])
    names = CLASSES[:]
    rng.shuffle(names)
    self.classes = [None] * n
    # Later classes first: class i may only use classes after it.
    for i in reversed(range(n)):
      self.classes[i] = self.klass(i, names[i])
    prog["classes"] = list(self.classes)
    self.budget = size or rng.choice([4, 6, 8, 10, 14])
    self.made = []
    prog["body"] = self.body(Ctx(level="fn", cls=-1), rng.randrange(2, 7))
    if not prog["body"]:
      prog["body"] = [["arg"]]
    if self.chain:
      at = rng.randrange(len(prog["body"]) + 1)
      prog["body"][at:at] = self.handed_on(n)
    if n and not any(s[0] == "mod" for s in prog["body"]):
      prog["body"] = [["mod", "m0", 0, None], ["call", "m0", "call"]] + prog["body"]
    kinds = (["t", "t", "t_ws", "t_norng"] if stateless
             else ["tws", "tws", "tws", "tws_norng"])
    prog["kind"] = self.pick(kinds) if not inner else kinds[0]
    if not self._uses_state(prog) and not stateless and self.chance(0.3):
      prog["kind"] = self.pick(["t", "t_ws", "t_norng"])
    prog["sites"] = self.sites
    prog["wrapped"] = wrappers
    if (self.opts.get("opt") and not wrappers and not inner
        and self.chance(self.opts["opt"])):
      prog["opt"] = True
    (self.sites, self.feat, self.budget, self.classes, self.wrapped,
     self.made, self.chain) = saved
    self.progs.append(prog)
    return len(self.progs) - 1

  def handed_on(self, n):
    """Modules made here, each of which calls the next one."""
    rng = self.rng
    out = []
    order = list(range(n))
    rng.shuffle(order)
    for i in order:
      out.append(["mod", "h%d" % i, i, self.pick(MODNAMES)])
    out += [["give", "h%d" % i, "h%d" % (i + 1)] for i in range(n - 1)]
    if rng.random() < 0.4:
      out.append(["call", "h%d" % (n - 1), "call"])
    calls = [["call", "h0", "call"]]
    if rng.random() < 0.3:
      calls.append(["call", "h1", "call"])
    if self.feat["raise_"] and rng.random() < 0.3:
      calls = [["try", "Exception", calls + [["raise", self.site()]], []]]
    out += calls
    for _ in range(rng.randrange(1, 4)):
      out.append(["pdict", "h%d" % rng.choice([0, 0, 1, 2]),
                  self.pick(["params", "params", "state"])])
    return out

  def _uses_state(self, x):
    if isinstance(x, list):
      if x and x[0] in ("gets", "sets"):
        return True
      return any(self._uses_state(v) for v in x)
    if isinstance(x, dict):
      return any(self._uses_state(v) for v in x.values())
    return False

  def klass(self, i, names):
    self.budget = 4
    spec = {"name": names[0], "snake": names[1]}
    if self.chance(0.2):
      spec["dc"] = True
    spec["pre"] = ([["raise", self.site()]]
                   if self.feat["raise_"] and self.chance(0.15) else [])
    base = None
    if i + 1 < len(self.classes) and self.chance(0.25):
      base = spec["base"] = self.rng.randrange(i + 1, len(self.classes))
      spec["inh"] = [h for h in ("call", "other", "prop", "trans")
                     if self.chance(0.2)]
    ctor = Ctx(level="ctor", cls=i)
    spec["ctor"] = self.body(ctor, self.rng.randrange(0, 3))
    attrs = [v for v in ctor.vars]
    if (self.chain or self.chance(0.3)) and i + 1 < len(self.classes):
      attrs.append("g0")
    for m in ("call", "other", "prop", "trans"):
      self.budget = 5 if m == "call" else 2
      c = Ctx(level=m, cls=i, vars=list(attrs))
      if m in ("prop", "trans") and not self.chance(0.5):
        spec[m] = [["arg"]]
        continue
      spec[m] = self.body(c, self.rng.randrange(1, 5 if m == "call" else 3))
      if base is not None and m in ("call", "other") and self.chance(0.5):
        spec[m].insert(self.rng.randrange(len(spec[m]) + 1), ["super", m, base])
    if self.chain:
      st = [["call", "g0", "call"]]
      if i + 1 == len(self.classes):
        st = self.g_param(c) if self.chance(0.6) else self.g_sets(c)
      at = self.rng.randrange(len(spec["call"]) + 1)
      spec["call"][at:at] = st
    return spec

  def body(self, ctx, n):
    out = []
    for _ in range(n):
      if self.budget <= 0:
        break
      self.budget -= 1
      st = self.stmt(ctx)
      if st is not None:
        out.extend(st)
    return out

  def allowed(self, ctx):
    f = dict(self.feat)
    if ctx.vmap:
      return {k: f[k] for k in ("param", "gets", "sets", "key", "raise_")
              if f[k]} or {"param": 1}
    if ctx.direct:  # directly in the body of a JAX transformation
      for k in ("mod", "scope"):
        f[k] = min(f[k], 1.5) if self.opts.get("inner_mods", True) else 0
      f["lift"] = 0
    if ctx.trace or ctx.level != "fn":
      if self.wrapped:
        f["efault"] = 0
    if ctx.trace:
      f["nested"] = f["nested"] * 0.2
      f["lift"] = f["spawn"] = 0
    if ctx.depth >= 3:
      for k in ("scope", "rng", "creator", "getter", "icept", "try_", "loop",
                "ifinit", "efault", "opt"):
        f[k] = 0
    if ctx.depth >= 3 or ctx.trace >= 2 or (ctx.level != "fn" and ctx.trace):
      for k in WRAPPERS:
        f[k] = 0
    if ctx.level != "fn" or ctx.trace:
      for k in WRAPPERS:
        f[k] = f[k] * 0.3
    if ctx.level in ("ctor",):
      for k in WRAPPERS:
        f[k] = 0
    if ctx.cls + 1 >= len(self.classes):
      f["mod"] = 0
    if not ctx.vars:
      f["call"] = f["pdict"] = 0
    return {k: v for k, v in f.items() if v > 0}

  def stmt(self, ctx):
    f = self.allowed(ctx)
    if not f:
      return None
    ks = sorted(f)
    k = self.rng.choices(ks, [f[x] for x in ks])[0]
    return getattr(self, "g_" + k)(ctx)

  def init(self, ctx):
    d = {"v": self.rng.randrange(1, 1000)}
    if self.chance(0.1):
      d["j"] = True
    body = []
    if self.feat["raise_"] and self.chance(0.25):
      body.append(["raise", self.site()])
    if self.feat["key"] and self.chance(0.25):
      body.append(["key", "one", 1])
    if self.chance(0.08):
      body.append(["param", "nest", [], {"v": self.rng.randrange(1, 1000)}])
      if self.feat["raise_"] and self.chance(0.5):
        body.append(["raise", self.site()])
    if body:
      d["body"] = body
    return d

  def g_param(self, ctx):
    shape = self.pick(SHAPES) if self.chance(0.15) else []
    name = self.pick(["w", "w", "b", "u"])
    return [["param", name, shape, self.init(ctx)]]

  def g_gets(self, ctx):
    return [["gets", self.pick(["c", "c", "d", "e", "t"]), self.init(ctx)]]

  def g_getsn(self, ctx):
    if ctx.trace:
      return None
    return [["gets", self.pick(["c", "d", "e", "t"]), None]]

  def g_sets(self, ctx):
    how = "const" if ctx.vmap or self.chance(0.3) else "acc"
    return [["sets", self.pick(["c", "c", "d", "e", "t"]), how,
             self.rng.randrange(1, 1000)]]

  def g_key(self, ctx):
    how = self.pick(["one", "one", "one", "many", "maybe"])
    if how == "many" and self.wrapped and not self.opts.get("inexact"):
      how = "one"  # in control flow only single requests have exact keys
    return [["key", how, self.rng.randrange(1, 4)]]

  def g_poke(self, ctx):
    return [["poke"]]

  def g_reserve(self, ctx):
    return [["reserve", self.rng.randrange(1, 4)]]

  def g_rng(self, ctx):
    return [["rng", self.rng.randrange(1, 50),
             self.body(ctx.deeper(), self.rng.randrange(1, 4))]]

  def g_mod(self, ctx):
    ci = self.rng.randrange(ctx.cls + 1, len(self.classes))
    var = "m%d" % len(ctx.vars)
    out = [["mod", var, ci, self.pick(MODNAMES)]]
    if self.chance(0.06):
      # A constructor that fails, caught.
      bad = (["mod", var, ci, self.pick(["9x", "no-name", "a/b", ""])]
             if self.chance(0.6) else
             ["mod", var, ci, self.pick(MODNAMES), "nosuper"])
      bad = ["try", "Exception", [bad], []]
      out = self.pick([[bad] + out, [bad]])
    if ctx.level == "fn":
      for v, c in self.made:
        if v in ctx.vars and self.chance(0.3):
          if c < ci:
            out.append(["give", v, var])
          elif c > ci:
            out.append(["give", var, v])
      self.made.append((var, ci))
    ctx.vars.append(var)
    if self.chance(0.6):
      out.append(["call", var, "call"])
    return out

  def g_call(self, ctx):
    how = self.pick(["call", "call", "call", "other", "prop", "trans"])
    return [["call", self.pick(ctx.vars), how]]

  def g_scope(self, ctx):
    body = self.body(ctx.deeper(), self.rng.randrange(1, 4))
    k = self.rng.random()
    if k < 0.75:
      return [["scope", self.pick(SCOPES), body]]
    if k < 0.83:
      st = ["scope", self.pick(BADSCOPES), body]
      return [["try", "Exception", [st], []]] + self.g_param(ctx)
    self.nscope = getattr(self, "nscope", 0) + 1
    var = "n%d" % self.nscope
    use = ["within", var, body]
    again = ["try", self.pick(["Exception", "BaseException"]),
             [["within", var, body[:1]]], []]
    if self.chance(0.25):
      use[2] = [again] + body
    out = self.pick([[use], [use], [use, again], [
        ["try", "BaseException", [use], []], again]])
    if not ctx.direct and not ctx.vmap and self.chance(0.4):
      out = [["scope", self.pick(SCOPES), out]]
    mid = self.body(ctx.deeper(), 1) if self.chance(0.5) else []
    return [["nscope", var, self.pick(SCOPES)]] + mid + out

  def small(self, icept=False):
    out = []
    if self.feat["raise_"] and self.chance(0.3):
      out.append(["raise", self.site()])
    if self.feat["key"] and self.chance(0.2):
      out.append(["key", "maybe", 1])
    return out

  def hook(self, modes):
    both = self.rng.randrange(3)
    return {"tag": self.tag(), "mode": self.pick(modes), "pre": self.small(),
            "post": self.small(), "params": both != 1, "state": both != 0}

  def g_creator(self, ctx):
    return [["creator", self.hook(["pass", "pass", "add", "const", "skip"]),
             self.body(ctx.deeper(), self.rng.randrange(1, 4))]]

  def g_getter(self, ctx):
    return [["getter", self.hook(["pass", "add", "add", "skip"]),
             self.body(ctx.deeper(), self.rng.randrange(1, 4))]]

  def g_icept(self, ctx):
    return [["icept", self.hook(["pass", "pass", "pass", "short", "skip"]),
             self.body(ctx.deeper(), self.rng.randrange(1, 4))]]

  def g_try_(self, ctx):
    body = self.body(ctx.deeper(), self.rng.randrange(1, 4))
    if self.feat["raise_"] and self.chance(0.6):
      body.insert(self.rng.randrange(len(body) + 1), ["raise", self.site()])
    return [["try", self.pick(["Exception", "BaseException", "BaseException"]),
             body, self.body(ctx.deeper(), self.rng.randrange(0, 3))]]

  def g_raise_(self, ctx):
    return [["raise", self.site()]]

  def g_pdict(self, ctx):
    return [["pdict", self.pick(ctx.vars), self.pick(["params", "state"])]]

  def g_nested(self, ctx):
    q = self.program(inner=True, size=4)
    return [["nested", q, self.rng.randrange(1, 50), self.rng.randrange(100)]]

  def g_spawn(self, ctx):
    q = self.program(inner=True, size=5)
    return [["spawn", q, self.rng.randrange(1, 50), self.rng.randrange(100)]]

  def g_lift(self, ctx):
    q = self.program(inner=True, stateless=True, size=4)
    self.progs[q]["kind"] = "t"
    return [["lift", q, self.rng.randrange(1, 50), self.rng.randrange(100),
             self.pick(["lifted", "lifted", "foo"])]]

  def g_ifinit(self, ctx):
    return [["ifinit", self.body(ctx.deeper(), self.rng.randrange(0, 3)),
             self.body(ctx.deeper(), self.rng.randrange(0, 3))]]

  def g_arg(self, ctx):
    return [["xarg"]] if ctx.trace and self.chance(0.7) else [["arg"]]

  def g_opt(self, ctx):
    c = ctx.deeper()
    c.vars = list(ctx.vars)
    return [["opt", self.body(c, self.rng.randrange(1, 4))]]

  def g_loop(self, ctx):
    return [["loop", self.rng.randrange(2, 4),
             self.body(ctx.deeper(), self.rng.randrange(1, 3))]]

  def g_efault(self, ctx):
    """An armed environment fault around one statement, usually caught."""
    c = ctx.deeper()
    c.depth += 1
    ws = [w for w in WRAPPERS if self.feat[w]]
    pre = []
    if ws and self.chance(0.75):
      *pre, inner = self.wrapper_simple(self.pick(ws), c)
      k = self.rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 30])
    else:
      inner = [["key", "one", 1], ["key", "maybe", 1]]
      if not self.wrapped or self.opts.get("inexact"):
        inner.append(["key", "many", 3])
      if self.feat["reserve"]:
        inner.append(["reserve", 2])
      inner = self.pick(inner)
      k = self.rng.choice([0, 0, 0, 1, 2])
    site = self.site()
    self.esites.append(site)
    if inner[0] == "ifinit":  # only the JAX loop of the apply is disturbed
      out = [["ifinit", inner[1], [["efault", site, k, inner[2]]]]]
    else:
      out = [["efault", site, k, [inner]]]
    if self.chance(0.85):
      out = [["try", "BaseException", out, []]]
      if self.chance(0.7):
        out.append(["key", "maybe", 1])
    return pre + out

  esites = ()

  # ------------------------------------------------- JAX transformations

  def declare(self, ctx):
    out = []
    self.tree = False
    if self.feat["sets"] or self.feat["gets"]:
      out.append(["gets", "c", {"v": self.rng.randrange(1, 1000)}])
      if self.chance(0.3):
        self.tree = True
        out.append(["gets", "t", {"v": self.rng.randrange(1, 1000)}])
    out.append(["param", "w", [], {"v": self.rng.randrange(1, 1000)}])
    return out

  tree = False

  def lean(self, ctx):
    """A body that creates nothing new, given `declare`."""
    out = []
    for _ in range(self.rng.randrange(1, 4)):
      k = self.rng.randrange(6)
      if k == 0:
        out.append(["param", "w", [], {"v": 1}])
      elif k == 1 and (self.feat["sets"] or self.feat["gets"]):
        out.append(["sets", "t" if self.tree and self.chance(0.4) else "c",
                    self.pick(["acc", "acc", "const"]),
                    self.rng.randrange(1000)])
      elif k == 2 and (self.feat["sets"] or self.feat["gets"]):
        out.append(["gets", "t" if self.tree and self.chance(0.4) else "c",
                    {"v": 1}])
      elif k == 3 and self.feat["key"]:
        out.append(["key", self.pick(
            ["one", "many", "maybe"] if self.opts.get("inexact") else
            ["one", "maybe"]), 2])
      elif k == 4 and self.feat["raise_"]:
        out.append(["raise", self.site()])
      else:
        out.append(["xarg"])
    return out

  def index(self):
    return ["acc", self.rng.randrange(4)] if self.chance(0.6) else [
        "const", self.rng.randrange(4)]

  def wrapper_simple(self, k, ctx):
    """A wrapper with lean bodies, preceded by the declarations it needs."""
    if self.opts.get("guarded") is not None and self.chance(0.3):
      return self.guarded(k, ctx)
    pre = self.declare(ctx)
    L = lambda: self.lean(ctx)  # pylint: disable=g-long-lambda
    return pre + self.wrap_stmt(k, L)

  def guarded(self, k, ctx):
    """A wrapper whose bodies fail after their effects, which is caught."""
    pre = self.declare(ctx) + [["gets", "c", {"v": 1}]]
    sites = self.opts["guarded"]

    def body():
      s = self.site()
      sites.append(s)
      out = [["sets", "c", self.pick(["acc", "const"]), self.rng.randrange(1000)]]
      if self.feat["key"] and self.chance(0.5):
        out.insert(self.rng.randrange(2), ["key", "one", 2])
      out += self.lean(ctx) if self.chance(0.4) else []
      out.append(["raise", s])
      return out + (self.lean(ctx) if self.chance(0.4) else [])
    st = self.wrap_stmt(k, body)
    after = [["gets", "c", {"v": 1}]]
    if self.feat["key"] and self.chance(0.5):
      after.append(["key", "one", 2])
    return pre + [["try", "BaseException", st, after[:self.rng.randrange(2)]]
                  ] + after

  def wrap_stmt(self, k, L):
    if k == "jit":
      st = ["jit", self.pick(["jit", "remat", "named"]), L(),
            self.pick(["", "", "kw", "two"])]
    elif k == "cond":
      st = ["cond", self.index(), L(), L(), self.pick(["new", "old", "same", "oldkw", "newkw"])]
    elif k == "switch":
      st = ["switch", self.index(), [L() for _ in range(self.rng.randrange(1, 4))]]
    elif k == "scan":
      st = self.mk_scan(L())
    elif k == "fori":
      n = self.rng.randrange(4)
      st = ["fori", self.rng.randrange(3), n, L()]
      if not n:
        return [["ifinit", list(st[3]), [st]]]
    elif k == "while_":
      b = L()
      return [["ifinit", b, [
          ["while", self.rng.randrange(4), b] + self.while_cond()]]]
    elif k == "vmap":
      st = ["vmap", [self.rng.randrange(100) for _ in range(2)],
            [s if s[0] != "sets" else ["sets", s[1], "const", s[3]] for s in L()],
            self.pick(["", "axis"])]
    elif k == "grad":
      st = ["grad", self.pick(["grad", "vgrad"]), self.rng.randrange(1, 9), L(),
            self.gstyle()]
    else:
      st = ["eshape", L(), self.pick(["", "kw", "two"])]
    return [st]

  def mk_scan(self, body):
    n = self.rng.randrange(1, 4)
    return ["scan", [self.rng.randrange(1000) for _ in range(n)], body,
            self.chance(0.4), self.rng.choice([1, 1, 2]),
            self.pick(["", "", "none", "pair"])]

  def gstyle(self):
    return self.pick(["", "", "kw", "second", "three", "noaux"])

  def tbody(self, ctx, n=None):
    return self.body(ctx.traced(), n or self.rng.randrange(1, 4))

  def g_jit(self, ctx):
    return [["jit", self.pick(["jit", "remat", "named"]), self.tbody(ctx),
             self.pick(["", "", "kw", "two"])]]

  def g_eshape(self, ctx):
    return [["eshape", self.tbody(ctx), self.pick(["", "kw", "two"])]]

  def g_grad(self, ctx):
    return [["grad", self.pick(["grad", "vgrad"]), self.rng.randrange(1, 9),
             self.tbody(ctx), self.gstyle()]]

  def strict(self, ctx, bodies, st):
    """At init the bodies run unconditionally, as the documentation asks."""
    flat = [s for b in bodies for s in b]
    return [["ifinit", flat, [st]]]

  def g_cond(self, ctx):
    if self.chance(0.35):
      return self.wrapper_simple("cond", ctx)
    a, b = self.tbody(ctx), self.tbody(ctx)
    return self.strict(ctx, [a, b], ["cond", self.index(), a, b,
                                     self.pick(["new", "old", "same", "oldkw", "newkw"])])

  def g_switch(self, ctx):
    if self.chance(0.35):
      return self.wrapper_simple("switch", ctx)
    bs = [self.tbody(ctx, 2) for _ in range(self.rng.randrange(1, 4))]
    return self.strict(ctx, bs, ["switch", self.index(), bs])

  def g_scan(self, ctx):
    return [self.mk_scan(self.tbody(ctx))]

  def g_fori(self, ctx):
    return [["fori", self.rng.randrange(3), self.rng.randrange(1, 4),
             self.tbody(ctx)]]

  def g_while_(self, ctx):
    b = self.tbody(ctx)
    return self.strict(ctx, [b], ["while", self.rng.randrange(4), b]
                       + self.while_cond())

  def while_cond(self):
    k = self.rng.random()
    if k < 0.65:
      return []
    if k < 0.72:
      return [["key"]]
    if k < 0.8:
      return [["set", self.pick(["c", "d", "e"])]]
    return [["read", self.pick(["c", "c", "d", "e"])]]

  def g_vmap(self, ctx):
    c = ctx.traced()
    c.vmap = True
    b = self.body(c, self.rng.randrange(1, 4)) + [["xarg"]]
    return [["vmap", [self.rng.randrange(100) for _ in range(
        self.rng.randrange(1, 4))], b, self.pick(["", "axis"])]]

  # ------------------------------------------------------------------ calls

  def active(self, pi, p=0.5, jit=False):
    """A set of faults for one call of program pi."""
    sites = self.all_sites(pi)
    if not sites or not self.chance(p):
      return {}
    wrapped = jit or self.any_wrapped(pi)
    kinds = EXC_ANY if wrapped else list(EXC)
    n = self.rng.choice([1, 1, 1, 2, 3])
    out = {}
    for _ in range(n):
      s = self.pick(sites)
      out[s] = self.pick(EXC_ENV if s in self.esites else kinds)
    return out

  def reach(self, pi):
    seen = [pi]

    def walk(x):
      if isinstance(x, list):
        if x and x[0] in ("nested", "lift", "spawn") and isinstance(x[1], int):
          if x[1] not in seen:
            seen.append(x[1])
            walk(self.progs[x[1]])
        for v in x:
          walk(v)
      elif isinstance(x, dict):
        for v in x.values():
          walk(v)
    walk(self.progs[pi]["body"])
    walk(self.progs[pi]["classes"])
    return seen

  def all_sites(self, pi):
    return [s for q in self.reach(pi) for s in self.progs[q]["sites"]]

  def any_wrapped(self, pi):
    return any(self.progs[q]["wrapped"] for q in self.reach(pi))


class Ctx:

  def __init__(self, level, cls, vars=None):
    self.level = level
    self.cls = cls
    self.vars = vars if vars is not None else []
    self.depth = 0
    self.trace = 0
    self.direct = False
    self.vmap = False

  def deeper(self):
    c = Ctx(self.level, self.cls, self.vars)
    c.depth = self.depth + 1
    c.trace, c.direct, c.vmap = self.trace, self.direct, self.vmap
    return c

  def traced(self):
    c = Ctx(self.level, self.cls, list(self.vars))
    c.depth = self.depth + 1
    c.trace = self.trace + 1
    c.direct = True
    return c
