"""Writes the rows of type expressions for src/main.rs: every public type with
every combination of marker types, and random nested ones."""
import random

MARK = ["SS", "SO", "YO", "NN"]
STD = ["u64", "String", "Cell<u8>", "Rc<u8>", "Arc<Cell<u8>>", "Arc<u8>", "*const u8", "&'static Cell<u8>",
       "MutexGuard<'static, u8>", "Box<dyn Fn()>", "Box<dyn Fn() + Send>", "Box<dyn Fn() + Send + Sync>"]
WRAP = ["Vec<{}>", "Option<{}>", "Box<{}>", "Arc<{}>", "Rc<{}>", "Cell<Option<{}>>", "std::sync::Mutex<{}>", "({}, u8)", "[{}; 2]"]
# (kind, pattern with {T} and {R})
TYPES = [
    ("Owner", "ThingBuf<{T}, {R}>"), ("Owner", "StaticThingBuf<{T}, 1, {R}>"), ("Owner", "StaticThingBuf<{T}, 8, {R}>"),
    ("Owner", "mpsc::StaticChannel<{T}, 1, {R}>"), ("Owner", "blocking::StaticChannel<{T}, 4, {R}>"),
    ("Sender", "mpsc::Sender<{T}, {R}>"), ("Handle", "mpsc::Receiver<{T}, {R}>"),
    ("Sender", "blocking::Sender<{T}, {R}>"), ("Handle", "blocking::Receiver<{T}, {R}>"),
    ("StaticHandle", "mpsc::StaticSender<{T}, {R}>"), ("StaticHandle", "mpsc::StaticReceiver<{T}, {R}>"),
    ("StaticHandle", "blocking::StaticSender<{T}, {R}>"), ("StaticHandle", "blocking::StaticReceiver<{T}, {R}>"),
    ("Future", "mpsc::RecvFuture<'static, {T}, {R}>"),
]
TYPES1 = [
    ("Guard", "Ref<'static, {T}>"), ("Guard", "mpsc::SendRef<'static, {T}>"), ("Guard", "mpsc::RecvRef<'static, {T}>"),
    ("Guard", "blocking::SendRef<'static, {T}>"), ("Guard", "blocking::RecvRef<'static, {T}>"),
    ("Future", "mpsc::RecvRefFuture<'static, {T}>"),
    ("Value", "thingbuf::Full<{T}>"), ("Value", "errors::TrySendError<{T}>"), ("Value", "errors::SendTimeoutError<{T}>"),
    ("Value", "errors::Closed<{T}>"),
]
TYPES0 = ["errors::TryRecvError", "errors::RecvTimeoutError", "DefaultRecycle", "WithCapacity"]
# futures without a name: what they are made from, and how
ANON = [
    ("Future", "mpsc::Sender<{T}, {R}>", "|x: &'static _| mpsc::Sender::<{T}, {R}>::send_ref(x)", "Sender::send_ref() of {T}, {R}"),
    ("Carrier", "mpsc::Sender<{T}, {R}>", "|x: &'static _| mpsc::Sender::<{T}, {R}>::send(x, unreachable!())", "Sender::send() of {T}, {R}"),
    ("Future", "mpsc::StaticSender<{T}, {R}>", "|x: &'static _| mpsc::StaticSender::<{T}, {R}>::send_ref(x)", "StaticSender::send_ref() of {T}, {R}"),
    ("Carrier", "mpsc::StaticSender<{T}, {R}>", "|x: &'static _| mpsc::StaticSender::<{T}, {R}>::send(x, unreachable!())", "StaticSender::send() of {T}, {R}"),
    ("Future", "mpsc::Receiver<{T}, {R}>", "|x: &'static _| mpsc::Receiver::<{T}, {R}>::recv(x)", "Receiver::recv() of {T}, {R}"),
    ("Future", "mpsc::StaticReceiver<{T}, {R}>", "|x: &'static _| mpsc::StaticReceiver::<{T}, {R}>::recv_ref(x)", "StaticReceiver::recv_ref() of {T}, {R}"),
]
GOOD = "Tr { send: true, sync: true }"


STDONLY = ("blocking::", "Timeout")


def generate(seed, n, std=True):
    keep = lambda l, f=lambda x: x[1]: [x for x in l if std or not any(w in f(x) for w in STDONLY)]
    TYPES, TYPES1, TYPES0 = keep(globals()["TYPES"]), keep(globals()["TYPES1"]), keep(globals()["TYPES0"], lambda x: x)
    rnd = random.Random(seed)
    rows = []

    def row(k, ty, t, r):
        rows.append('Row { name: %s, k: K::%s, got: p!(%s), t: %s, r: %s }' % (
            quote(ty), k, ty, f"p!({t})" if t else GOOD, f"p!({r})" if r else GOOD))

    def anon(a, t, r):
        k, on, f, name = a
        s = lambda x: x.replace("{T}", t).replace("{R}", r)
        rows.append('Row { name: %s, k: K::%s, got: v!(%s, %s), t: %s, r: %s }' % (
            quote(s(name)), k, s(on), s(f), f"p!({t})", GOOD if "recv_ref" in f else f"p!({r})"))

    for t in MARK:
        for k, p in TYPES1:
            row(k, p.replace("{T}", t), t, None)
        for r in MARK:
            for k, p in TYPES:
                row(k, p.replace("{T}", t).replace("{R}", r), t, r)
            for a in ANON:
                anon(a, t, r)
    for x in TYPES0:
        row("Plain", x, None, None)

    def elem(d):
        x = rnd.random()
        if d == 0 or x < .3:
            return rnd.choice(MARK + STD)
        if x < .55:
            return rnd.choice(WRAP).format(elem(d - 1))
        return ours(d - 1)

    def policy(d):
        x = rnd.random()
        if d == 0 or x < .5:
            return rnd.choice(MARK + ["DefaultRecycle", "WithCapacity"])
        if x < .8:
            return rnd.choice(["Arc<{}>", "&'static {}", "Box<{}>", "Rc<{}>", "Cell<{}>"]).format(policy(d - 1))
        return elem(d - 1)

    def ours(d):
        t = elem(d)
        if rnd.random() < .35:
            k, p = rnd.choice(TYPES1)
            ty = p.replace("{T}", t)
            row(k, ty, t, None)
        else:
            r = policy(d)
            k, p = rnd.choice(TYPES)
            ty = p.replace("{T}", t).replace("{R}", r)
            row(k, ty, t, r)
        return ty

    while len(rows) < n:
        if rnd.random() < .15:
            anon(rnd.choice(ANON), elem(2), rnd.choice(MARK + ["Arc<SS>", "Arc<SO>", "Arc<NN>"]))
        else:
            ours(3)
    out = ["fn rows() -> Vec<Row> {", "    let mut v = Vec::new();"]
    out += ["    v.push(%s);" % r for r in rows]
    out += ["    v", "}"]
    return "\n".join(out) + "\n"


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


if __name__ == "__main__":
    import sys
    open(sys.argv[3], "w").write(generate(int(sys.argv[1]), int(sys.argv[2])))
