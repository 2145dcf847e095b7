"""C23: remote inference (spec/Remote.tla, RemoteMC.tla)."""
import json, threading, time
import numpy as np
import repo
from vlib import A, D, attempt, Rec
repo.use("demo")
from misc_stub import MQTTMessage  # noqa: E402
from demo_lib.fpga import InferFPGAMQTT, Input, InputOutput, LossFPGA, Output  # noqa: E402


class Net:
    def __init__(self, k):
        self.schema = {"net": k}


def answer_row(row, w, unit=1.0):
    return [float(2 * row[0] + (1 + j) * unit) for j in range(w)]


class Bus:
    """The broker and the device: records requests, prepares their answers, delivers what the schedule says."""
    def __init__(self, w):
        self.w, self.cb, self.reqs, self.models = w, {}, [], []
        self.plan = lambda r: []            # answers delivered while request r (from 1) is pending
        self.late = False                   # deliver from another thread while the client waits
        self.hook = None
        self.unit = 1.0                     # answers are multiples of a third of it (full mantissas), or of it
        self.threads, self.foreign = [], w

    def subscribe(self, topic, qos=0, **k): pass
    def message_callback_add(self, topic, cb): self.cb[topic] = cb

    def publish(self, topic, payload=None, qos=0, **k):
        d = json.loads(payload)
        if topic == "model":
            self.models.append((threading.get_ident(), d["net"]))
            return
        i = d["input"]
        n = i["shape"][0]
        rows = np.array(i["tensor"], dtype=float).reshape(n, -1)
        a = [v for r in rows for v in answer_row(r, self.w, self.unit)]
        self.reqs.append({"id": len(self.reqs) + 1, "th": threading.get_ident(), "sh": list(i["shape"]), "v": A(np.array(i["tensor"], dtype=float))["v"], "a": A(np.array(a))["v"], "del": [],
                          "msg": json.dumps({"id": i["id"], "shape": [n, self.w], "tensor": a})})
        r = len(self.reqs)
        if self.hook:
            self.hook(r)
        todo = [a for a in self.plan(r) if a <= r]
        rq = self.reqs[r - 1]
        rq["del"] = todo
        if not self.late:
            for a in todo:
                self.deliver(a)
        elif todo:
            def work():
                for a in todo:
                    time.sleep(.002)
                    self.deliver(a)
            t = threading.Thread(target=work)
            self.threads.append(t)
            t.start()

    def deliver(self, a):
        """answer a; 0: not an answer at all; negative: an answer to somebody else's request"""
        if a == 0:
            p = "{not json"
        elif a < 0:
            own = json.loads(self.reqs[-1]["msg"])["id"] if self.reqs else "x"
            # foreign identifiers, some of them close to the one waited for
            self.foreign += 1
            fid = [f"other{a}", own[:8], own + "0", "", None, own.upper() if own.upper() != own else "A", 0, own[:-1], [own]][self.foreign % 9]
            p = json.dumps({"id": fid, "shape": [1, self.w], "tensor": [7.0] * self.w})
        else:
            p = self.reqs[a - 1]["msg"]
        plain(self.cb["result"], self, None, MQTTMessage("result", p.encode()))

    def settle(self):
        for t in self.threads:
            t.join()
        self.threads = []


GAVE_UP = [0]


def patient():
    """the time a client waits for an answer that will come; little once several waits were in vain (the specification rejects those calls)"""
    return 10 if GAVE_UP[0] < 3 else .05


def client(bus, mx, timeout):
    return InferFPGAMQTT(bus, result_topic="result", model_topic="model", infer_topic="infer", max_batch_size=mx, timeout=timeout)


def call(ctx, bus, c, x, mx, k, emit, clear, fresh=False, nested=False):
    me, t0 = threading.get_ident(), time.time()
    r0, m0 = len(bus.reqs), len(bus.models)
    ok, out = attempt(c, Net(k), x) if threading.current_thread() is threading.main_thread() else plain(c, Net(k), x)
    bus.settle()
    ok = ok and out is not None
    GAVE_UP[0] += time.time() - t0 > 5
    own = [r for r in bus.reqs[r0:] if r["th"] == me]
    o = np.asarray(out) if ok else np.zeros((0,))
    if o.dtype == object:
        o = np.zeros((0,))
    emit({"ev": "Call", "n": len(x), "d": int(np.prod(x.shape[1:])), "x": A(x)["v"], "max": mx, "w": bus.w, "net": k, "models": [m for t, m in bus.models[m0:] if t == me],
          "sent": [{f: r[f] for f in ("id", "sh", "v", "a", "del")} for r in own], "ok": ok, "osh": list(o.shape), "out": A(o)["v"], "clear": clear, "fresh": fresh, "nested": nested})


def plain(f, *a):
    try:
        return True, f(*a)
    except Exception as e:
        return False, e


UNITS = [1.0, 1.0, 1 / 3, 1e-12 / 3, 1e9 / 3, 5e-310, 1e300]


def layout(rng, x):
    """the same values in another memory order"""
    k = rng.choice("cccfs")
    if k == "f": return np.asfortranarray(x)
    if k == "s":
        y = np.zeros((2 * x.shape[0], *x.shape[1:]), dtype=x.dtype)
        y[::2] = x
        return y[::2]
    return x


def pack_event(ctx):
    """a batch and its answer as the packets the bus carries, there and back"""
    rng, npr = ctx.rng, ctx.np
    def arr(n):
        x = npr.normal(size=(n, *rng.choice([(1,), (2,), (3,), (2, 2), (3, 1, 2)]))) * 10.0 ** rng.choice([-300, -8, 0, 0, 3, 200])
        if rng.random() < .3: x = npr.integers(-128, 128, size=x.shape).astype(rng.choice([np.int8, np.int32, np.int64]))
        elif rng.random() < .3: x = np.clip(x, -1e30, 1e30).astype(np.float32)
        return layout(rng, x)
    n = rng.choice([1, 2, 3, 7])
    x, y, id = arr(n), arr(n), rng.choice(["a", "0", "id with spaces", "\u00e9\"", "9" * 40])
    side = lambda kv: {"id": kv["id"], "sh": list(kv["shape"]), "v": A(np.array(kv["tensor"], dtype=float))["v"]}
    none = {"id": "", "sh": [], "v": []}
    how = rng.choice(["kv", "json", "pair", "pairjson"])

    def go():
        if how == "kv": return Input.from_numpy(id, x).as_kv(), Output.from_numpy(id, y).as_kv()
        if how == "json": return json.loads(Input.from_numpy(id, x).as_json()), json.loads(json.dumps(Output.from_numpy(id, y).as_kv()))
        p = InputOutput.from_numpy(id, x, y)
        d = p.as_kv() if how == "pair" else json.loads(p.as_json())
        return d["input"], d["output"]
    ok, r = attempt(go)
    ok2, back = attempt(lambda: Output.from_kv(r[1]).as_numpy()) if ok else (False, None)
    e = {"ev": "Pack", "how": how, "ok": bool(ok and ok2), "id": id, "n": n, "x": A(x)["v"], "y": A(y)["v"], "inp": side(r[0]) if ok else none, "res": side(r[1]) if ok else none,
         "bsh": list(back.shape) if ok2 else [], "back": A(back)["v"] if ok2 else []}
    return e


def batch(rng, n, start, unit=1.0):
    sh = rng.choice([(n, 1), (n, 2), (n, 3), (n, 2, 2)])
    x = layout(rng, np.arange(start, start + int(np.prod(sh)), dtype=float).reshape(sh) * unit)
    return x.astype(np.float32) if 1e-20 < unit < 1e20 and rng.random() < .3 else x


def scheduled(ctx, h, late, emit):
    """two calls of one and two chunks; deliveries as TLC chose them"""
    rng = ctx.rng
    bus = Bus(rng.choice([1, 2]))
    plan = {1: h[0], 2: h[1], 3: h[2]}
    bus.plan = lambda r: plan.get(r, [])
    bus.late = late
    allin = all(r in plan[r] for r in plan)
    clear = all(set(plan[r]) <= {r} for r in plan) and not (late and not allin)
    c = client(bus, 2, patient() if allin else .02)
    for j, n in enumerate([rng.choice([1, 2]), rng.choice([3, 4])]):
        call(ctx, bus, c, batch(rng, n, 100 * j + 1), 2, j, emit, clear)
        if j == 0:
            for a in h[3]:
                if a <= len(bus.reqs):
                    bus.deliver(a)


def history(ctx, emit, faults=True):
    rng = ctx.rng
    mx = rng.choice([1, 2, 3, 4, 7, 10])
    bus = Bus(rng.choice([1, 2, 3]))
    bus.unit = rng.choice(UNITS)
    bus.late = rng.random() < .3
    lossless = bus.late or rng.random() < .5
    c = client(bus, mx, patient() if lossless else .01)

    def plan(r):
        d = [r] if lossless or rng.random() < .8 else []
        if faults:
            for _ in range(rng.choice([0, 0, 1, 2])):
                d.insert(rng.randrange(len(d) + 1), rng.choice([r, max(1, r - 1), rng.randint(1, r), 0, -1]))
        return d
    bus.plan = plan
    for k in range(rng.choice([1, 2, 3])):
        fresh = k > 0 and rng.random() < .3
        if fresh:
            c = client(bus, mx, patient() if lossless else .01)
        n = rng.choice([0, 1, mx - 1, mx, mx + 1, 2 * mx, 2 * mx + 1, rng.randint(1, 30)])
        if rng.random() < .05: n = rng.choice([40, 65, 129])
        call(ctx, bus, c, batch(rng, n, 1000 * k + 1, bus.unit), mx, k, emit, not faults, fresh=fresh)
        for _ in range(rng.choice([0, 0, 1])):
            if bus.reqs:
                bus.deliver(rng.randint(1, len(bus.reqs)))


def overlap(ctx, emit):
    """a second call runs between a request of the first and its answer"""
    rng = ctx.rng
    bus = Bus(1)
    c = client(bus, 2, .02)
    bus.plan = lambda r: [r]
    at = rng.choice([1, 2])

    def hook(r):
        if r == at:
            bus.hook = None
            t = threading.Thread(target=lambda: call(ctx, bus, c, batch(rng, rng.choice([1, 2]), 500), 2, 9, emit, False, nested=True))
            t.start()
            t.join()
    bus.hook = hook
    call(ctx, bus, c, batch(rng, 3, 1), 2, 1, emit, False, nested=True)


def loss(ctx, hist, emit):
    """hist per evaluation: deliveries while it waits (numbers of evaluations)"""
    class B(Bus):
        def publish(self, topic, payload=None, qos=0, **k):
            self.models.append((threading.get_ident(), json.loads(payload)["net"]))
            r = len(self.models)
            for a in hist[r - 1]:
                self.send(a)

        def send(self, a):
            self.cb["result"](self, None, MQTTMessage("result", json.dumps({"loss": 10 * a / unit}).encode()))
    bus = B(1)
    unit = 1 if any(a < r for r, h in enumerate(hist, 1) for a in h) else 3
    c = LossFPGA(bus, "result", "model", timeout=.02)
    for r in range(1, len(hist) + 1):
        ok, out = attempt(c, Net(r))
        late = "late answer to the previous evaluation" if hist[r - 1] and hist[r - 1][-1] == r - 1 else "own"
        emit({"ev": "Loss", "hist": late, "net": r, "models": [m for _, m in bus.models[r - 1:]], "ok": ok and out is not None, "out": D(float(out) if ok and out is not None else 0), "want": D(10 * r / unit),
              "clear": set(hist[r - 1]) <= {r}, "intime": r in hist[r - 1]})


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    inv = ["OwnAnswers", "PartsOwn"]
    hs = ctx.gen("RemoteMC", dict(Copies=2, Match=True), subst={"Chunks": "C12"}, spec_name="Spec", inv=inv, post="Emit", workers=8)["h"]
    ctx.mc("RemoteMC", dict(Copies=2, Match=True), subst={"Chunks": "C21"}, spec_name="Spec", inv=inv, workers=8)
    ctx.mc("RemoteMC", dict(Copies=2 if ctx.thorough else 1, Match=True), subst={"Chunks": "C122"}, spec_name="Spec", inv=inv, workers=8)
    for h in hs:
        modes = [False, True] if ctx.thorough else [rng.random() < .4]
        for late in modes:
            rec.scenario(lambda emit: scheduled(ctx, h, late, emit))
    for _ in range(1500 if ctx.thorough else 300):
        rec.scenario(lambda emit: history(ctx, emit))
    for _ in range(300 if ctx.thorough else 120):
        rec.scenario(lambda emit: history(ctx, emit, faults=False))
    for _ in range(20):
        rec.scenario(lambda emit: overlap(ctx, emit))
    for h in ([[1]], [[1], [2]], [[], [2]], [[1, 1], [2]], [[], []], [[1], [2, 2], [3]]):
        rec.scenario(lambda emit: loss(ctx, h, emit))
    rec.scenario(lambda emit: loss(ctx, [[], [1]], emit))
    for _ in range(400 if ctx.thorough else 120):
        rec.one(pack_event(ctx))
    ctx.validate("RemoteTrace", rec.scenarios, step="RStep", start='"none"')
    ctx.assumptions += ["the broker and the device are stand-ins inside the driver; the device echoes the identifier of a request in its answer"]
