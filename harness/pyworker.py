"""The Python bindings, driven by h_python.cc over a pipe: one JSON text per line in both directions.

websockets and _hgdb (the compiled half of the bindings) are not installed here and are replaced: the
socket is the pipe. Everything else is the repository's own code, taken from the directory argv[1]."""

import asyncio
import json
import sys
import types

sys.dont_write_bytecode = True


def put(**msg):
    sys.stdout.write(json.dumps(msg) + "\n")
    sys.stdout.flush()


def get():
    line = sys.stdin.readline()
    if not line:
        sys.exit(0)
    return json.loads(line)


class Socket:
    async def send(self, text):
        put(sent=text)
        get()

    async def recv(self):
        put(recv=True)
        r = get()
        if "text" in r:
            return r["text"]
        raise asyncio.TimeoutError()

    async def close(self):
        pass


class Messages(Socket):
    """one connection of a symbol table client"""

    def __init__(self, texts):
        self.texts = texts

    def __aiter__(self):
        return self

    async def __anext__(self):
        if not self.texts:
            raise StopAsyncIteration
        return self.texts.pop(0)


def install():
    ws = types.ModuleType("websockets")
    ws.exceptions = types.ModuleType("websockets.exceptions")
    ws.exceptions.ConnectionClosedError = type("ConnectionClosedError", (Exception,), {})
    ws.WebSocketClientProtocol = object

    async def connect(uri, **_):
        put(connect=uri)
        get()
        return Socket()

    ws.connect = connect
    sys.modules["websockets"] = ws
    sys.modules["websockets.exceptions"] = ws.exceptions
    sys.modules["_hgdb"] = types.ModuleType("_hgdb")
    sys.path.insert(0, sys.argv[1])


install()
import hgdb.client  # noqa: E402
import hgdb.db  # noqa: E402
import hgdb.symbol  # noqa: E402

LOOP = asyncio.new_event_loop()


# ---- client
async def client_calls(op):
    if op.get("new"):
        client = hgdb.client.HGDBClient(*op["new"])
        try:
            put(result=await client.connect())
        except hgdb.client.HGDBClientException as ex:
            put(raised=str(ex))
        get()
    else:
        client = hgdb.client.HGDBClient("ws://nowhere", None)
        client.ws = Socket()
    for call in op["calls"]:
        try:
            r = await getattr(client, call["method"])(*call.get("args", []), **call.get("kwargs", {}))
            put(result=r)
        except hgdb.client.HGDBClientException as ex:
            put(raised=str(ex))
        get()


# ---- symbol table provider: the answers are the harness's
def ask(what, *args):
    put(ask=what, args=list(args))
    return get()["answer"]


def make(kind, d):
    return None if d is None else kind(**d)


S = hgdb.symbol


class Provider(S.SymbolTableProvider):
    def get_breakpoint(self, breakpoint_id):
        return make(S.BreakpointSymbol, ask("get_breakpoint", breakpoint_id))

    def get_breakpoints(self, filename, line_num, column_num):
        return [make(S.BreakpointSymbol, x) for x in ask("get_breakpoints", filename, line_num, column_num)]

    def get_instance_name(self, instance_id):
        return ask("get_instance_name", instance_id)

    def get_instance_id_by_name(self, instance_name):
        return ask("get_instance_id_by_name", instance_name)

    def get_instance_id_by_bp(self, breakpoint_id):
        return ask("get_instance_id_by_bp", breakpoint_id)

    def get_context_variable(self, breakpoint_id):
        return [(make(S.ContextVariableSymbol, a), make(S.VariableSymbol, b))
                for a, b in ask("get_context_variables", breakpoint_id)]

    def get_generator_variable(self, instance_id):
        return [(make(S.GeneratorVariableSymbol, a), make(S.VariableSymbol, b))
                for a, b in ask("get_generator_variables", instance_id)]

    def get_instance_names(self):
        return ask("get_instance_names")

    def get_annotation_values(self, name):
        return ask("get_annotation_values", name)

    def get_all_array_names(self):
        return ask("get_all_array_names")

    def execution_bp_orders(self):
        return ask("execution_bp_orders")


PROVIDER = None


def provider(op):
    global PROVIDER
    if PROVIDER is None:
        PROVIDER = Provider()
    LOOP.run_until_complete(PROVIDER._on_message(Messages(op["messages"]), "/"))


# ---- symbol table writer
D = hgdb.db


def make_var(v):
    r = D.Variable(v["name"], v["value"], v["rtl"])
    if v["delay"]:
        r.type = D.VariableType.delay
    for i in v.get("indices", []):
        r.indices.append(D.VariableIndex(make_var(i["var"]), i["min"], i["max"]))
    return r


def put_entry(parent, e):
    kw = {}
    late = e["late"]
    for k in ("line", "col", "filename"):
        if e.get(k):
            kw[k] = e[k]
    args = []
    kind = D.Scope
    if "var" in e:
        kind = D.VarDecl if e["kind"] == "decl" else D.VarAssign
        args = [make_var(e["var"])]
    if late:
        c = kind(*args, parent)
        for k, v in kw.items():
            setattr(c, k, v)
    else:
        c = parent.add_child(kind, *args, **kw)
    for k in e.get("kids", []):
        put_entry(c, k)


def table(op):
    mods = [D.Module(m["name"]) for m in op["modules"]]
    args = [op["generator"]] if "generator" in op else []
    with D.JSONSymbolTable(op["top"], op["file"], *args) as t:
        for m, d in zip(mods, op["modules"]):
            if op["first"]:
                t.add_definition(m)
            for e in d["scope"]:
                put_entry(m, e)
            for name, i in d["instances"]:
                m.add_instance(mods[i], name)
            if not op["first"]:
                t.add_definition(m)


def main():
    while True:
        op = get()
        try:
            if op["op"] == "client":
                LOOP.run_until_complete(client_calls(op))
            elif op["op"] == "provider":
                provider(op)
            else:
                table(op)
            put(done=True)
        except Exception as ex:  # noqa: BLE001
            put(died="%s: %s" % (type(ex).__name__, ex))


main()
