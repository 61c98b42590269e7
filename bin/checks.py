"""What each check does, per property."""

CHECKS = {}
NA = {}
META = {}
NOTE = ("The specification is explored exhaustively within the bounds of its configurations; the code is bound to it by "
        "replaying generated behaviours and validating every recorded trace, so code paths outside the generated inputs "
        "(bounds in DESIGN.md and in the evidence file) are not covered. Trusted: TLC, the Go toolchain, the drivers' "
        "logging.")


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


# ---------------------------------------------------------------- MemStore
def q(s):
    return '"%s"' % s


def mem_sim(c, mode, num, length):
    return c.generate("MemGen", {"N": 1, "Mode": q(mode), "Len_": length}, simulate=num, depth=length + 1)


@check("C01")
def c01(c):
    c.model_check("MemAlg", c.q("MemAlg_wf5.cfg", "MemAlg_wf5.cfg"))
    stim = []
    for n in range(1, c.q(5, 6) + 1):
        stim += c.generate("MemGen", {"N": n, "Mode": q("wf"), "Len_": 0})
    outs = c.drive("mem", "wf", n=c.q(150, 1500), stim=stim)
    c.validate("MemTrace", outs)


@check("C02")
def c02(c):
    c.model_check("MemAlg", "MemAlg_ops.cfg")
    outs = c.drive("mem", "c02", stim=mem_sim(c, "c02", c.q(400, 5000), 20))
    outs += c.drive("mem", "wf", n=c.q(100, 1000), stim=[])
    c.validate("MemTrace", outs)


@check("C04")
def c04(c):
    c.model_check("MemAlg", c.q("MemAlg_mal.cfg", "MemAlg_mal5.cfg"))
    stim = []
    for n in range(1, c.q(4, 5) + 1):
        stim += c.generate("MemGen", {"N": n, "Mode": q("mal"), "Len_": 0})
    outs = c.drive("mem", "mal", n=c.q(300, 3000), stim=stim, watchdog=30)
    c.validate("MemTrace", outs)


@check("C05")
def c05(c):
    c.model_check("MemAlg", "MemAlg_ops.cfg")
    outs = c.drive("mem", "c05", stim=mem_sim(c, "c05", c.q(400, 5000), 20))
    c.validate("MemTrace", outs)


@check("C06")
def c06(c):
    c.model_check("MemAlg", "MemAlg_ops.cfg")
    outs = c.drive("mem", "c06", stim=mem_sim(c, "c06", c.q(500, 5000), 20))
    c.validate("MemTrace", outs)


@check("C03")
def c03(c):
    c.model_check("MemAlg", "MemAlg_ops.cfg")
    outs = c.drive("mem", "c03", stim=mem_sim(c, "c03", c.q(300, 4000), 20))
    c.validate("MemTrace", outs)
    outs = c.drive("memconc", n=c.q(1500, 20000), shards=c.q(1, 4))
    c.validate("MemLin", outs)
    c.drive("memrace", n=c.q(60, 1500), race=True)


# ---------------------------------------------------------------- eviction
@check("C08")
def c08(c):
    c.model_check("LimitMC", "LimitMC.cfg")
    stim = []
    for n in range(1, c.q(6, 8) + 1):
        stim += c.generate("LimitGen", {"Maxes": "{0, 1, 2, 3}", "K": 5, "N": n})
    outs = c.drive("limit", n=c.q(400, 5000), stim=stim)
    c.validate("LimitTrace", outs)
    c.drive("limit", n=c.q(100, 1500), race=True)


@check("C09")
def c09(c):
    c.model_check("RecentMC", "RecentMC.cfg")
    stim = c.generate("RecentGen", {"Steps": "{0, 1, 3, 4, 5}", "K": 2, "N": c.q(4, 5)})
    stim += c.generate("RecentGen", {"Steps": "{0, 5, 9}", "K": 3, "N": c.q(5, 6)})
    outs = c.drive("recent", n=c.q(300, 5000), stim=stim)
    c.validate("RecentTrace", outs)
    c.drive("recent", n=c.q(100, 1000), race=True)


# ---------------------------------------------------------------- persistence
@check("C07")
def c07(c):
    c.model_check("Persist", "Persist.cfg")
    c.model_check("Persist", "Persist1.cfg")
    stim = c.generate("PersistGen", {"MaxSaves": 2})
    outs = c.drive("persist", n=c.q(200, 3000), stim=stim, shards=4)
    outs += c.drive("persistkill", n=c.q(15, 150), shards=6)
    c.validate("PersistTrace", outs)


# ---------------------------------------------------------------- chunked collector
def chunked(c, mode):
    c.model_check("ChunkedMC", c.q("ChunkedMC.cfg", "ChunkedMC4.cfg"), timeout=800)
    stim = []
    for n in range(1, c.q(4, 5) + 1):
        stim += c.generate("ChunkedGen", {"Mode": q(mode), "N": n})
    outs = c.drive("chunked", mode, n=c.q(1000, 12000), stim=stim, shards=8, watchdog=30)
    c.validate("ChunkedTrace", outs)
    if mode == "c10":
        c.validate("ChunkedSum", c.drive("chunkedrace", n=c.q(20, 300), race=True))


@check("C10")
def c10(c):
    chunked(c, "c10")


@check("C11")
def c11(c):
    chunked(c, "c11")


@check("C12")
def c12(c):
    chunked(c, "c12")


# ---------------------------------------------------------------- collection server
GOODK = ["ok", "noparent", "novalue", "unknown", "order", "dup", "longlen"]
BADK = ["notrace", "nospan", "nospanid", "nokey", "empty", "toolong", "hugelen", "overlen", "badtag", "endgroup",
        "nogroupend", "wrongwire", "cut"]


def tset(xs):
    return "{%s}" % ", ".join(q(x) for x in xs)


@check("C15")
def c15(c):
    c.model_check("WireMC", "WireMC.cfg")
    c.model_check("ServerMC", "ServerMC.cfg")
    ends = tset(["keep", "eof", "part"])
    stim = c.generate("ServerGen", {"Kinds": tset(GOODK + BADK + ["fail"]), "Ends": ends, "C": 1, "N": 2})
    stim += c.generate("ServerGen", {"Kinds": tset(["ok", "noparent", "notrace", "fail", "toolong"]),
                                     "Ends": tset(["keep", "eof"]), "C": 2, "N": 1})
    stim += c.generate("ServerGen", {"Kinds": tset(["ok", "noparent", "nokey", "fail"]), "Ends": tset(["keep"]), "C": 1, "N": c.q(3, 5)})
    outs = c.drive("server", n=c.q(600, 8000), stim=stim)
    c.validate("ServerTrace", outs)


# ---------------------------------------------------------------- remote collector
@check("C13")
def c13(c):
    c.model_check("WireMC", "WireMC.cfg")
    c.model_check("Remote", "RemoteMC.cfg")
    outs = c.drive("deliver", n=c.q(400, 6000))
    c.validate("DeliverTrace", outs)
    c.drive("deliver", n=c.q(60, 600), race=True)


@check("C14")
def c14(c):
    c.model_check("Remote", c.q("RemoteMC.cfg", "RemoteMC5.cfg"))
    stim = c.generate("RemoteGen", {"Ops": tset(["C", "K", "T", "X"]), "N": c.q(4, 5), "Kills": "{99999999, 0, 30}", "M": 2})
    stim += c.generate("RemoteGen", {"Ops": tset(["C", "B", "K"]), "N": 3, "Kills": "{99999999, 1, 5000, 1500000}", "M": 2})
    outs = c.drive("remote", n=c.q(600, 8000), stim=stim)
    c.validate("RemoteTrace", outs)


# ---------------------------------------------------------------- recorder
@check("C16")
def c16(c):
    c.model_check("RecorderMC", "RecorderMC.cfg")
    c.model_check("RecorderMC", "RecorderMC1.cfg")
    stim = c.generate("RecorderGen", {"Ops": tset(["E", "B", "F", "A", "R"]), "N": c.q(5, 6), "Both": "FALSE"})
    stim += c.generate("RecorderGen", {"Ops": tset(["E", "F", "R", "C"]), "N": c.q(5, 6), "Both": "TRUE"})
    outs = c.drive("recorder", n=c.q(500, 8000), stim=stim)
    c.validate("RecorderTrace", outs)


# ---------------------------------------------------------------- span IDs as text
@check("C17")
def c17(c):
    c.model_check("SpanTextMC", "SpanTextMC.cfg")
    tok = tset(["0", "1", "f", "F", "g", "/", "-", "+", "_", "sp", "0x", "f16", "f17", "z", "dot", "nl", "u", "nul", "8", "id"])
    stim = c.generate("SpanTextGen", {"Tokens": tok, "N": 3, "Headers": "{}"})
    stim += c.generate("SpanTextGen", {"Tokens": tset(["1", "g", "/", "f16", "z", "0x"]), "N": c.q(5, 6), "Headers": "{}"})
    stim += c.generate("SpanTextGen", {"Tokens": tset(["0", "id", "g", "/", "f17"]), "N": c.q(3, 5),
                                       "Headers": tset(["absent", "empty", "good", "bad", "two"])})
    outs = c.drive("spantext", n=c.q(1500, 20000), stim=stim)
    c.validate("SpanTextTrace", outs)


# ---------------------------------------------------------------- HTTP tracing
@check("C18")
def c18(c):
    c.model_check("HttpTraceMC", "HttpTraceMC.cfg")
    c.model_check("HttpTraceMC", "HttpTraceMCx.cfg")
    none = tset(["no"])
    stim = c.generate("HttpTraceGen", {"N": 1, "Fails": none, "Roots": tset(["rec", "none"]), "L": c.q(3, 4), "Methods": tset(["GET", "HEAD"])})
    stim += c.generate("HttpTraceGen", {"N": 1, "Fails": none, "Roots": tset(["rec"]), "L": 2, "Methods": tset(["POST"])})
    for n in range(1, c.q(3, 4) + 1):
        stim += c.generate("HttpTraceGen", {"N": n, "Fails": tset(["no", "before", "after"]), "Roots": tset(["rec", "none", "span", "parent"]),
                                            "L": 0, "Methods": tset([""])})
    outs = c.drive("http", n=c.q(400, 6000), stim=stim)
    c.validate("HttpTraceTrace", outs)
    c.drive("http", n=c.q(100, 1500), race=True)


@check("C19")
def c19(c):
    c.model_check("RedactMC", "RedactMC.cfg")
    names = tset(["Authorization", "authorization", "AUTHORIZATION", "X-A", "x-a", "Cookie"])
    stim = []
    for n in range(0, c.q(2, 3) + 1):
        stim += c.generate("RedactGen", {"Names": names, "Lists": tset(["default", "", "x-A", "Cookie authorization"]), "N": n})
    outs = c.drive("redact", n=c.q(1500, 15000), stim=stim)
    c.validate("RedactTrace", outs)


# ---------------------------------------------------------------- events
@check("C20")
def c20(c):
    c.model_check("EventsMC", c.q("EventsMC.cfg", "EventsMC2.cfg"))
    kinds = tset("s i f t d ps pi pt st pst sl sd ar m mf".split())
    stim = c.generate("EventsGen", {"Kinds": kinds, "Pats": "{1, 2, 3, 4}", "Ps": "{0, 1}", "Strays": c.q("{3}", "{0, 1, 3, 6}")})
    stim += c.generate("EventsGen", {"Kinds": kinds, "Pats": "{1, 2, 3, 4}", "Ps": "{0, 2}", "Strays": c.q("{0}", "{0, 1, 3, 6}")})
    outs = c.drive("events", n=c.q(4000, 40000), stim=stim)
    c.validate("EventsTrace", outs)
    c.validate("EventsTrace", c.drive("events", "race", n=c.q(600, 5000), race=True))


# ---------------------------------------------------------------- combined stores
@check("C21")
def c21(c):
    c.model_check("MultiMC", c.q("MultiMC.cfg", "MultiMC5.cfg"))
    stim = []
    for n in range(1, c.q(3, 4) + 1):
        stim += c.generate("MultiGen", {"Parts": c.q("{0, 1, 2}", "{0, 1, 2}"), "Traces": "{1, 2}", "N": n})
    stim += c.generate("MultiGen", {"Parts": "{3}", "Traces": "{1}", "N": 3})
    outs = c.drive("multi", n=c.q(500, 6000), stim=stim)
    c.validate("MultiTrace", outs)


# ---------------------------------------------------------------- OpenTracing
@check("C22")
def c22(c):
    c.model_check("OpenTracingMC", c.q("OpenTracingMC5.cfg", "OpenTracingMC6.cfg"))
    c.model_check("OpenTracingMC", "OpenTracingMCv.cfg")
    stim = []
    for n in range(2, c.q(3, 4) + 1):
        stim += c.generate("OpenTracingGen", {"Ops": tset(["bag", "fin", "tag", "log"]), "MaxSpans": 3, "N": n, "Fails": tset(["", "odd"])})
    stim += c.generate("OpenTracingGen", {"Ops": tset(["bag", "fin"]), "MaxSpans": 3, "N": c.q(4, 5), "Fails": tset(["", "all"])})
    outs = c.drive("opentracing", n=c.q(600, 8000), stim=stim)
    c.validate("OpenTracingTrace", outs)
    c.validate("OpenTracingTrace", c.drive("opentracing", "race", n=c.q(40, 600), race=True))


# ---------------------------------------------------------------- web application
@check("C23")
def c23(c):
    c.model_check("TraceAppMC", c.q("TraceAppMC6.cfg", "TraceAppMC7.cfg"))
    c.model_check("TraceAppAlg", "TraceAppAlg.cfg")
    stim = []
    for n in range(3, c.q(5, 6) + 1):
        stim += c.generate("TraceAppGen", {"Inst": "{1, 2}", "Traces": "{1}" if n > 4 else "{1, 2}", "Kinds": tset(["c", "e", "u", "o", "m"]), "N": n})
    stim += c.generate("TraceAppGen", {"Inst": "{1, 2}", "Traces": "{1, 2}", "Kinds": tset(["e", "p", "m"]), "N": 4})
    outs = c.drive("traceapp", n=c.q(50, 800), stim=stim, shards=8)
    c.validate("TraceAppTrace", outs)
    c.validate("TraceAppTrace", c.drive("traceapp", n=c.q(60, 800), race=True))


def prof(c):
    c.model_check("ProfileMC", c.q("ProfileMC.cfg", "ProfileMC5.cfg"))
    c.model_check("ProfileMC", "ProfileMCa.cfg")
    stim = c.generate("ProfileGen", {"N": 1, "Names": "{0, 1}", "Durs": "{0, 1, 2, 3, 5}", "Twice": "TRUE"})
    stim += c.generate("ProfileGen", {"N": 2, "Names": "{0, 1}", "Durs": "{0, 1, 4}", "Twice": "TRUE"})
    stim += c.generate("ProfileGen", {"N": 3, "Names": "{1, 2}", "Durs": "{2, 5}", "Twice": "FALSE"})
    stim += c.generate("ProfileGen", {"N": 4, "Names": "{1}", "Durs": "{2}", "Twice": "FALSE"})
    outs = c.drive("profile", n=c.q(600, 8000), stim=stim, shards=8)
    c.validate("ProfileTrace", outs)


@check("C24")
def c24(c):
    prof(c)


@check("C29")
def c29(c):
    prof(c)


# ---------------------------------------------------------------- IDs
@check("C26")
def c26(c):
    c.model_check("IdsAlg", c.q("IdsAlg.cfg", "IdsAlg3.cfg"))
    c.refutes("IdsAlg", "IdsAlgX.cfg", "Distinct")
    stim = []
    for n in range(1, c.q(5, 6) + 1):
        stim += c.generate("IdsGen", {"N": n, "Callers": "{1, 2}"})
    c.validate("IdsTrace", c.drive("ids", n=c.q(1500, 20000), stim=stim))
    c.validate("IdsTrace", c.drive("ids", n=c.q(300, 4000), race=True))
    c.validate("IdsTrace", c.drive("ids", "bulk", n=c.q(36, 90) * 1000000, watchdog=300))

# ---------------------------------------------------------------- the whole pipeline
@check("C27")
def c27(c):
    c.model_check("PipelineMC", c.q("PipelineMC.cfg", "PipelineMC2.cfg"))
    c.refutes("PipelineMC", "PipelineMCX.cfg", "NothingElse")
    stim = c.generate("PipelineGen", {"N": c.q(4, 5), "Faults": "FALSE"})
    fstim = c.generate("PipelineGen", {"N": c.q(4, 5), "Faults": "TRUE"})
    outs = c.drive("pipeline", n=c.q(600, 8000), stim=stim, shards=4)
    outs += c.drive("pipeline", "faults", n=0, stim=fstim, shards=8)
    c.validate("PipelineTrace", outs)
    c.drive("pipeline", n=c.q(80, 800), race=True, shards=4)


# ---------------------------------------------------------------- what a trace says of itself
@check("C30")
def c30(c):
    c.model_check("TraceViewMC", "TraceViewMC.cfg")
    c.model_check("TraceViewMC", "TraceViewMC2.cfg")
    c.refutes("TraceViewMC", "TraceViewMCX.cfg", "TimesRight")
    stim = []
    for n in range(1, c.q(4, 5) + 1):
        stim += c.generate("TraceViewGen", {"N": n, "I": 3 if n > 3 else n, "E": 0, "M": 0})
    for k in range(1, c.q(2, 3) + 1):
        stim += c.generate("TraceViewGen", {"N": 1, "I": 1, "E": k, "M": 4 if k == 1 else 2})
    c.validate("TraceViewTrace", c.drive("view", n=c.q(400, 8000), stim=stim, shards=4))


# ---------------------------------------------------------------- the command
def app_env(c):
    return {"DRV_APPDASH": c.appdash_bin()}


@check("C31")
def c31(c):
    c.model_check("CmdLineMC", "CmdLineMC.cfg")
    c.refutes("CmdLineMC", "CmdLineMCX.cfg", "Honest")
    kinds = ["tcp", "tls", "many", "untrusted", "name", "proto", "refused"]
    stim = c.generate("CmdLineGen", {"N": 1, "Kinds": tset(kinds)})
    stim += c.generate("CmdLineGen", {"N": 2, "Kinds": tset(kinds if c.thorough else ["tcp", "tls", "many", "refused"])})
    c.validate("CmdLineTrace", c.drive("cmdline", n=c.q(3, 40), stim=stim, shards=8, env=app_env(c), timeout=800))


AUTH_CREDS = ["exact", "none", "wrongpw", "wronguser", "prefix", "longer", "case", "swapped", "nopw", "nouser", "empty", "bearer",
              "lower", "unpadded", "spaces", "raw", "wrong-exact", "exact-wrong", "wrong-wrong", "proxy", "query", "cut", "ext", "nul",
              "newline", "comma", "bits", "blank", "usercase", "lastbyte", "firstbyte", "double", "samelen", "digest"]
AUTH_KINDS = ["root", "list", "agg", "page", "profile", "upload", "perma", "odd"]


@check("C28")
def c28(c):
    c.model_check("AuthMC", c.q("AuthMC.cfg", "AuthMC3.cfg"))
    c.refutes("AuthMC", "AuthMCX.cfg", "Decided")
    stim = c.generate("AuthGen", {"N": 1, "Kinds": tset(AUTH_KINDS), "Creds": tset(AUTH_CREDS), "Conns": "{0, 1}"})
    stim += c.generate("AuthGen", {"N": 2, "Kinds": tset(["list", "upload", "perma"]), "Creds": tset(["exact", "none", "wrongpw", "lower"]), "Conns": "{1, 2}"})
    if c.thorough:
        stim += c.generate("AuthGen", {"N": 3, "Kinds": tset(["page", "upload"]), "Creds": tset(["exact", "none", "samelen"]), "Conns": "{1, 2}"})
    env = app_env(c)
    c.validate("AuthTrace", c.drive("auth", "start", env=env) + c.drive("auth", n=c.q(6, 60), stim=stim, shards=8, env=env))


@check("C25")
def c25(c):
    c.model_check("ServeMC", c.q("ServeMC.cfg", "ServeMC4.cfg"))
    c.refutes("ServeMC", "ServeMCX.cfg", "Sound")
    c.refutes("ServeMC", "ServeMCY.cfg", "Sound")
    stim = []
    for n in range(1, c.q(4, 5) + 1):
        stim += c.generate("ServeGen", {"N": n, "Steps": tset(["v", "w", "k"] if n > 3 else ["s", "v", "w", "k", "m"])})
    c.validate("ServeTrace", c.drive("serve", n=c.q(12, 300), stim=stim, shards=8, env=app_env(c), timeout=800))
