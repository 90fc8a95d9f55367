"""Stand-ins for twirp and google.protobuf, and the loader that gives the client's modules simulated surroundings."""
import ast
import builtins
import enum
import re
import struct
import sys
import types
import os

FLOAT, INT32, BOOL, STRING, UINT32, ENUM = 2, 5, 8, 9, 13, 14


# ---- protobuf wire format
def _varint(b, i):
    v = s = 0
    while True:
        c = b[i]
        i += 1
        v |= (c & 127) << s
        s += 7
        if c < 128:
            return v, i


def _enc(v):
    o = bytearray()
    v &= (1 << 64) - 1
    while v > 127:
        o.append(v & 127 | 128)
        v >>= 7
    o.append(v)
    return bytes(o)


def wire(b):
    """(number, wire type, value) of each field."""
    i = 0
    while i < len(b):
        k, i = _varint(b, i)
        n, t = k >> 3, k & 7
        if t == 0:
            v, i = _varint(b, i)
        elif t == 2:
            l, i = _varint(b, i)
            v, i = b[i:i + l], i + l
        elif t == 5:
            v, i = b[i:i + 4], i + 4
        elif t == 1:
            v, i = b[i:i + 8], i + 8
        else:
            raise ValueError("wire type")
        yield n, t, v


def default(t):
    return {FLOAT: 0.0, BOOL: False, STRING: ""}.get(t, 0)


def encode(fields, values):
    """fields: name -> (number, type)."""
    o = b""
    for name, (num, t) in sorted(fields.items(), key=lambda x: x[1][0]):
        v = values.get(name, default(t))
        if v == default(t):
            continue
        if t == FLOAT:
            o += _enc(num << 3 | 5) + struct.pack("<f", v)
        elif t == STRING:
            e = v.encode()
            o += _enc(num << 3 | 2) + _enc(len(e)) + e
        else:
            o += _enc(num << 3) + _enc(int(v))
    return o


def decode(fields, b):
    by = {num: (name, t) for name, (num, t) in fields.items()}
    out = {name: default(t) for name, (num, t) in fields.items()}
    for n, wt, v in wire(b):
        if n not in by:
            continue
        name, t = by[n]
        if t == FLOAT:
            v = struct.unpack("<f", v)[0]
        elif t == STRING:
            v = v.decode()
        elif t == BOOL:
            v = v != 0
        elif t == UINT32:
            v &= 0xFFFFFFFF
        out[name] = v
    return out


def check_value(t, name, v):
    if t == BOOL:
        if isinstance(v, (bool, int)):
            return bool(v)
        raise TypeError(f"{name}: {v!r} has type {type(v).__name__}, but expected one of: bool, int")
    if t in (UINT32, INT32, ENUM):
        if not isinstance(v, int):
            raise TypeError(f"{name}: {v!r} has type {type(v).__name__}, but expected one of: int")
        lo, hi = (0, 1 << 32) if t == UINT32 else (-(1 << 31), 1 << 31)
        if not lo <= v < hi:
            raise ValueError(f"Value out of range: {v}")
        return int(v)
    if t == FLOAT:
        return struct.unpack("<f", struct.pack("<f", float(v)))[0]
    if not isinstance(v, str):
        raise TypeError(f"{name}: bad argument type for built-in operation")
    return v


class Message:
    _fields = {}

    def __init__(self, **kw):
        object.__setattr__(self, "_v", {n: default(t) for n, (_, t) in self._fields.items()})
        for k, v in kw.items():
            if k not in self._fields:
                raise ValueError(f'Protocol message {type(self).__name__} has no "{k}" field.')
            if v is not None:
                setattr(self, k, v)

    def __getattr__(self, k):
        v = object.__getattribute__(self, "_v")
        if k in v:
            return v[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k not in self._fields:
            raise AttributeError(f"Protocol message {type(self).__name__} has no \"{k}\" field.")
        self._v[k] = check_value(self._fields[k][1], k, v)

    def SerializeToString(self):
        return encode(self._fields, self._v)

    def ParseFromString(self, b):
        self._v.update(decode(self._fields, b))

    def CopyFrom(self, o):
        self._v.update(o._v)

    def HasField(self, name):
        return bool(self._v[name])

    def Clear(self):
        for n, (_, t) in self._fields.items():
            self._v[n] = default(t)

    @classmethod
    def FromString(cls, b):
        m = cls()
        m.ParseFromString(b)
        return m

    def __eq__(self, o):
        return type(self) is type(o) and self._v == o._v

    __hash__ = None


class _Desc:
    pass


def parse_file(b):
    d = _Desc()
    d.package, d.messages = "", {}
    for n, _, v in wire(b):
        if n == 2:
            d.package = v.decode()
        elif n == 4:
            name, fields = "", {}
            for n2, _, v2 in wire(v):
                if n2 == 1:
                    name = v2.decode()
                elif n2 == 2:
                    fd = {n3: v3 for n3, _, v3 in wire(v2)}
                    fields[fd[1].decode()] = (fd[3], fd[5])
            d.messages[name] = fields
    return d


def proto_schema(path):
    """message -> field -> (number, type), and the methods, from a .proto file."""
    text = re.sub(r"//[^\n]*", "", open(path).read())
    msgs, rpcs = {}, {}
    kinds = {"uint32": UINT32, "bool": BOOL, "float": FLOAT, "string": STRING, "int32": INT32}
    for m in re.finditer(r"message\s+(\w+)\s*\{((?:[^{}]|\{[^{}]*\})*)\}", text):
        body = re.sub(r"enum\s+\w+\s*\{[^{}]*\}", "", m.group(2))
        msgs[m.group(1)] = {f.group(2): (int(f.group(3)), kinds.get(f.group(1), ENUM)) for f in re.finditer(r"(\w+)\s+(\w+)\s*=\s*(\d+)", body)}
    for m in re.finditer(r"rpc\s+(\w+)\((\w+)\)\s*returns\s*\((\w+)\)", text):
        rpcs[m.group(1)] = (m.group(2), m.group(3))
    return msgs, rpcs


class Errors(enum.Enum):
    Canceled = "canceled"
    Unknown = "unknown"
    InvalidArgument = "invalid_argument"
    Malformed = "malformed"
    DeadlineExceeded = "deadline_exceeded"
    NotFound = "not_found"
    BadRoute = "bad_route"
    AlreadyExists = "already_exists"
    PermissionDenied = "permission_denied"
    Unauthenticated = "unauthenticated"
    ResourceExhausted = "resource_exhausted"
    FailedPrecondition = "failed_precondition"
    Aborted = "aborted"
    OutOfRange = "out_of_range"
    Unimplemented = "unimplemented"
    Internal = "internal"
    Unavailable = "unavailable"
    DataLoss = "data_loss"
    NoError = ""


class TwirpServerException(Exception):
    def __init__(self, *args, code, message, meta={}):
        self._code = code if isinstance(code, Errors) else Errors.Unknown
        self._message, self._meta = message, meta
        super().__init__(message)

    code = property(lambda s: s._code)
    message = property(lambda s: s._message)
    meta = property(lambda s: s._meta)

    def to_dict(self):
        return {"code": self._code.value, "msg": self._message, "meta": self._meta}


class Context:
    def __init__(self, *args, headers=None):
        self._values, self._headers, self._response_headers = {}, headers or {}, {}

    def set(self, k, v):
        self._values[k] = v

    def get(self, k):
        return self._values[k]

    def get_headers(self):
        return self._headers

    def set_header(self, k, v):
        self._headers[k] = v

    def get_response_headers(self):
        return self._response_headers

    def set_response_header(self, k, v):
        self._response_headers[k] = v

    def set_response_headers(self, h):
        self._response_headers = h


def make_modules(network):
    """network(address, url, request bytes, timeout, response class) -> response bytes, or an exception."""
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        return m

    class SymDB:
        def __init__(self):
            self.s = {}

        def GetSymbol(self, n):
            return self.s[n]

    db = SymDB()

    class Pool:
        def AddSerializedFile(self, b):
            return parse_file(b)

    class TwirpClient:
        def __init__(self, address, timeout=5):
            self._address, self._timeout = address, timeout

        def _make_request(self, *args, url, ctx, request, response_obj, **kwargs):
            t = kwargs.get("timeout", self._timeout)
            headers = ctx.get_headers()
            if "headers" in kwargs:
                headers.update(kwargs["headers"])
            headers["Content-Type"] = "application/protobuf"
            b = network(self._address, url, type(request).__name__, request.SerializeToString(), t)
            ctx.set_response_headers({"Content-Type": "application/protobuf"})
            r = response_obj()
            r.ParseFromString(b)
            return r

    def build_msgs(desc, g):
        for n, f in desc.messages.items():
            d = _Desc()
            d.name, d.fields = n, f
            g["_" + n.upper()] = d

    def build_top(desc, name, g):
        for n, f in desc.messages.items():
            c = type(n, (Message,), {"_fields": f, "__module__": name})
            g[n] = c
            db.s[f"{desc.package}.{n}"] = c

    pool = Pool()
    sdb = mod("google.protobuf.symbol_database", Default=lambda: db)
    dsc = mod("google.protobuf.descriptor", _USE_C_DESCRIPTORS=True)
    dpl = mod("google.protobuf.descriptor_pool", Default=lambda: pool)
    bld = mod("google.protobuf.internal.builder", BuildMessageAndEnumDescriptors=build_msgs, BuildTopDescriptorsAndMessages=build_top)
    itn = mod("google.protobuf.internal", builder=bld)
    jsf = mod("google.protobuf.json_format")
    pb = mod("google.protobuf", symbol_database=sdb, descriptor=dsc, descriptor_pool=dpl, internal=itn, json_format=jsf)
    goo = mod("google", protobuf=pb)
    errs = mod("twirp.errors", Errors=Errors)
    exc = mod("twirp.exceptions", TwirpServerException=TwirpServerException)
    ctx = mod("twirp.context", Context=Context)

    class Endpoint:
        def __init__(self, **kw):
            self.__dict__.update(kw)

    class TwirpServer:
        def __init__(self, *args, service):
            self.service = service

    base = mod("twirp.base", Endpoint=Endpoint)
    srv = mod("twirp.server", TwirpServer=TwirpServer)
    cli = mod("twirp.client", TwirpClient=TwirpClient)
    tw = mod("twirp", errors=errs, exceptions=exc, context=ctx, base=base, server=srv, client=cli)
    ms = [sdb, dsc, dpl, bld, itn, jsf, pb, goo, errs, exc, ctx, base, srv, cli, tw]
    return {m.__name__: m for m in ms}


class Instrument(ast.NodeTransformer):
    """Puts a preemption point before every statement, and after every load of an attribute or item and every call."""

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            l = getattr(node, f, None)
            if isinstance(l, list) and l and isinstance(l[0], ast.stmt):
                o = []
                for i, st in enumerate(l):
                    head = f == "body" and i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
                    if not head and not (isinstance(st, ast.ImportFrom) and st.module == "__future__"):
                        o.append(ast.copy_location(ast.Expr(ast.Call(ast.Name("__sim_s__", ast.Load()), [], [])), st))
                    o.append(st)
                setattr(node, f, o)
        return node

    def wrap(self, node):
        return ast.copy_location(ast.Call(ast.Name("__sim_e__", ast.Load()), [node], []), node)

    def visit_Call(self, node):
        return self.wrap(super().generic_visit(node))

    def visit_Attribute(self, node):
        super().generic_visit(node)
        return self.wrap(node) if isinstance(node.ctx, ast.Load) else node

    visit_Subscript = visit_Attribute

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        node.value = self.wrap(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def function(self, node):
        r, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = r
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_match_case(self, node):
        p = node.pattern
        node.pattern = ast.MatchAs()
        self.generic_visit(node)
        node.pattern = p
        return node


class Loader:
    """Imports a package's modules with an import statement of its own."""

    code = {}

    def __init__(self, root, package, modules, point_s, point_e):
        self.root, self.package, self.mods = root, package, dict(modules)
        self.redirect = set(modules)
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(__import__=self.imp, __sim_s__=point_s, __sim_e__=point_e)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, *name.split("."))
        path, is_pkg = (os.path.join(p, "__init__.py"), True) if os.path.isdir(p) else (p + ".py", False)
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        c = Loader.code.get(path)
        if c is None:
            tree = ast.fix_missing_locations(Instrument().visit(ast.parse(open(path, encoding="utf-8").read(), path)))
            c = Loader.code[path] = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [p]
        self.mods[name] = m
        parent = name.rpartition(".")[0]
        if parent:
            pm = self.load(parent)
            if name in self.mods and self.mods[name] is not m:
                return self.mods[name]
            exec(c, m.__dict__)
            setattr(pm, name.rpartition(".")[2], m)
        else:
            exec(c, m.__dict__)
        return m

    def ours(self, name):
        return name in self.mods or name == self.package or name.startswith(self.package + ".") or name.split(".")[0] in ("twirp", "google", "requests")

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            base = globals["__package__"].split(".")
            base = base[: len(base) - level + 1]
            full = ".".join(base + ([name] if name else []))
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(full + "." + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(base[0])
        if not self.ours(name):
            return builtins.__import__(name, globals, locals, fromlist, level)
        if name not in self.mods and not (name == self.package or name.startswith(self.package + ".")):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and (full := name + "." + f) and (full in self.mods or name.startswith(self.package)):
                    try:
                        setattr(m, f, self.load(full))
                    except ModuleNotFoundError:
                        pass
            return m
        return self.load(name.split(".")[0])
