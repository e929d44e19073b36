"""Which suites (recorded from the real code) and which models decide each property."""
CONC_Q = dict(dfs=700, bound=2, rand=60, stale=40, secs=10, limit=120)
CONC_T = dict(dfs=20000, bound=3, rand=2000, stale=1000, secs=60, limit=900)
def conc(run, spec, **kw): return dict(run=run, spec=spec, quick=dict(CONC_Q, **kw.get("q", {})), thorough=dict(CONC_T, **kw.get("t", {})), hooked=kw.get("hooked", False))
SUITES = {
    "oneshot": conc("oneshot", "OneshotTrace"),
    "mpsc": conc("mpsc", "MpscTrace"),
    "aw": conc("aw", "AtomicWakerTrace"),
    "mutex": conc("mutex", "LockTrace"),
    "bilock": conc("bilock", "LockTrace"),
    "split": conc("split", "SplitTrace"),
    "shared": conc("shared", "SharedTrace"),
    "abort": conc("abort", "AbortTrace"),
    "remote": conc("remote", "RemoteTrace"),
    "fu": conc("fu", "TaskSetTrace"),
    "flat": conc("flat", "FlatTrace"),
    "local": conc("local", "TaskSetTrace"),
    "pool": conc("pool", "TaskSetTrace", hooked=True),
}
def seq(run, spec, **kw): return dict(run=run, spec=spec, seq=True, quick=dict(dict(rand=1500, limit=25), **kw.get("q", {})), thorough=dict(dict(rand=12000, limit=600), **kw.get("t", {})))
SUITES.update({
    "st": seq("st", "AdaptTrace"),
    "tst": seq("tst", "AdaptTrace"),
    "merge": seq("merge", "MergeTrace"),
    "futs": seq("futs", "FutsTrace"),
    "sinks": seq("sinks", "SinksTrace"),
    "io": seq("io", "IoTrace"),
    "tasks": seq("tasks", "TasksTrace"),
})
SEQ = ["st", "tst", "merge", "futs", "sinks", "io"]
INP = "Inputs, closures and wakers are scripted (pending, self-waking, item, error, end and panic steps of random scripts, at most 6 items per input); the combinator is polled by one task, sometimes spuriously, sometimes dropped early."
TRYM = "try_ready_chunks|try_unfold|try_flatten|try_flatten_stream|try_flatten_unordered|try_buffered|try_buffer_unordered|try_for_each_concurrent"
LIMITED = "buffered|buffer_unordered|flatten_unordered|flat_map_unordered|for_each_concurrent|try_flatten_unordered|try_buffered|try_buffer_unordered|try_for_each_concurrent"
RR = "select|select_with_strategy|select_all|stream_select|flatten_unordered|flat_map_unordered|try_flatten_unordered"
ALLCONC = ["oneshot", "mpsc", "aw", "mutex", "bilock", "split", "shared", "abort", "remote", "fu", "flat", "local", "pool"]
WIDE = {"quick": dict(dfs=120, rand=24, stale=24, secs=3, limit=30), "quick_seq": dict(rand=700, limit=15), "thorough": dict(limit=300), "thorough_seq": dict(rand=8000, limit=400)}
MEM = "The scheduler interleaves at every atomic, lock, park and waker operation of the hooked modules; executions are sequentially consistent except in the weak-memory runs."
VAL = {"val", "panic", "hang", "wake"}
ALL = VAL | {"drop", "hb", "weak", "fused", "hint"}
SVAL = {"val", "panic", "hang", "wake"}
WC = {k: WIDE[k] for k in ("quick", "thorough")}
def alg(m, big=False): return dict(mod=m, cfg={"quick": m, "thorough": m + "_big"} if big else m, timeout=500)
MPSC = [dict(mod="MpscMC", cfg={"quick": "MpscMC", "thorough": "MpscMC_big"})]
AMPSC = [alg("AlgMpsc", True)]
ADAPT = [alg("AdaptMC", True)]
FUTS = [alg("FutsMC", True)]
def flat(q, t): return [dict(mod="AlgFlat", cfg={"quick": q, "thorough": t}, timeout=500)]
def io(pid): return [dict(mod="IoMC", cfg={"quick": "IoMC_" + pid, "thorough": f"IoMC_{pid}_big"}, timeout=500)]
def merge(pid): return [dict(mod="MergeMC", cfg={"quick": "MergeMC_" + pid, "thorough": f"MergeMC_{pid}_big"}, timeout=500)]
CHECKS = {
    "C01": dict(suites=["oneshot"], classes=ALL, mc=[dict(mod="OneshotMC", cfg="OneshotMC"), alg("AlgOneshot")], assumptions=[MEM]),
    "C02": dict(suites=["mpsc"], classes=ALL - {"fused", "hint"}, mc=MPSC + AMPSC, assumptions=[MEM]),
    "C03": dict(suites=["mpsc"], classes=VAL | {"hint"}, mc=MPSC, assumptions=[MEM]),
    "C04": dict(suites=["mpsc", "tasks"], only="^(mpsc/|ident_chan)", classes=VAL | {"drop", "fused"}, mc=MPSC, assumptions=[MEM]),
    "C05": dict(suites=["oneshot", "mpsc"], classes={"wake", "hang"}, mc=MPSC + AMPSC + [alg("AlgOneshot")], assumptions=[MEM]),
    "C06": dict(suites=["aw"], classes=ALL, mc=[alg("AlgAtomicWaker")], assumptions=[MEM]),
    "C07": dict(suites=["mutex"], classes=ALL, mc=[alg("AlgMutex", True)], assumptions=[MEM]),
    "C08": dict(suites=["bilock", "split"], classes=ALL, mc=[alg("AlgBiLock")], assumptions=[MEM]),
    "C09": dict(suites=["shared", "tasks"], only="^(shared/|ident_shared)", classes=ALL, mc=[alg("AlgShared", True)], assumptions=[MEM]),
    "C10": dict(suites=["abort", "remote"], classes=ALL, mc=[alg("AlgAbort")], assumptions=[MEM]),
    "C11": dict(suites=["fu", "merge"], only="^(fu/|futures_unordered|select_all)", classes=ALL, mc=[alg("AlgTaskSet", True)], assumptions=[MEM]),
    "C12": dict(suites=["merge", "futs", "flat"], only="^(buffered|try_buffered|futures_ordered|(try_)?join_all.*)$|^buffered/", classes=SVAL, mc=merge("C12"), assumptions=[INP]),
    "C13": dict(suites=["merge", "flat"], only=f"^({LIMITED})$|^(flat|bufun|buffered|fec)/", classes=SVAL, mc=merge("C13") + flat("AlgFlat", "AlgFlat_big"), assumptions=[INP]),
    "C14": dict(suites=["local"], classes=ALL, mc=[alg("AlgLocal"), alg("AlgTaskSet", True)], assumptions=[MEM]),
    "C15": dict(suites=["pool"], classes=ALL, mc=[alg("AlgPool", True)], assumptions=[MEM]),
    "C18": dict(suites=["st", "merge"], exclude=[f"^({TRYM}|{RR}|{LIMITED}|futures_ordered|futures_unordered|try_fold|try_for_each)$"], classes=SVAL, mc=ADAPT + merge("C18"), assumptions=[INP]),
    "C19": dict(suites=["st", "tst", "merge", "futs", "sinks"], only=f"^(f_(map_ok|map_err|map_ok_or_else|and_then|or_else|err_into|ok_into|inspect_ok|inspect_err|into_future|unwrap_or_else|try_flatten|try_maybe_done)|map_ok|map_err|inspect_ok|inspect_err|err_into|into_stream|and_then|or_else|try_.*|{TRYM})$", classes=SVAL, mc=ADAPT + merge("C19"), assumptions=[INP]),
    "C20": dict(suites=["merge", "flat"], only=f"^({RR})$|^flat/", classes=SVAL, mc=merge("C20") + flat("AlgFlat_err", "AlgFlat_un"), assumptions=[INP]),
    "C21": dict(suites=SEQ[:5] + ["mpsc"], classes={"hint"}, opts=WC, assumptions=[INP, MEM]),
    "C22": dict(suites=SEQ[:5] + ["oneshot", "mpsc", "mutex", "shared", "fu"], classes={"fused"}, opts=WC, assumptions=[INP, MEM]),
    "C23": dict(suites=SEQ + ["split", "shared", "abort", "fu", "flat"], classes={"wake"}, opts=WC, mc=flat("AlgFlat_err", "AlgFlat_un"), assumptions=[INP, MEM]),
    "C16": dict(suites=["futs"], only="^(try_)?join", classes=SVAL, mc=FUTS, assumptions=[INP]),
    "C17": dict(suites=["futs"], only="^(fselect|ftry_select|select_)", classes=SVAL, mc=FUTS, assumptions=[INP]),
    "C24": dict(suites=["sinks"], classes=SVAL, mc=[alg("SinksMC", True)], assumptions=[INP]),
    "C25": dict(suites=["io"], only="^(rd_|buf_reader|take|chain|into_async_read|read|fill_buf|lines|copy|cursor|slice_reader|empty|repeat|seek|stream_position|window)", classes=SVAL, mc=io("C25"), assumptions=[INP]),
    "C26": dict(suites=["io"], only="^(wr_|buf_writer|line_writer|into_sink|write|flush|close|copy|cursor|vec_writer|sink|seek)", classes=SVAL, mc=io("C26"), assumptions=[INP]),
    "C27": dict(suites=ALLCONC + SEQ, classes={"drop"}, opts=WIDE, assumptions=[MEM, INP]),
    "C28": dict(suites=["futs"], only="^[fs]_", classes=SVAL | {"fused"}, mc=FUTS, assumptions=[INP]),
    "C29": dict(suites=["shared", "remote", "fu", "local", "pool"] + SEQ, classes={"upanic"}, opts=WIDE, assumptions=[MEM, INP]),
    "C31": dict(suites=SEQ + ["shared", "abort", "remote", "fu", "flat", "local", "pool"], classes={"moved"}, opts=WIDE, assumptions=[MEM, INP]),
    "C32": dict(suites=["futs", "sinks", "io", "tasks"], only="^(compat_|spawn_via)", classes=SVAL | {"drop", "hint", "fused"}, assumptions=[INP]),
    "C33": dict(suites=["tasks", "futs"], only="^(wakers|spawn_via|f_obj)", classes=SVAL | {"drop", "upanic"}, assumptions=[INP]),
    "C34": dict(suites=["tasks", "futs", "sinks", "io"], only="^test_", classes=SVAL | {"drop", "fused", "hint"}, assumptions=[INP]),
    "C30": dict(suites=ALLCONC, classes={"hb", "weak"}, mc=[], opts=WIDE, assumptions=[MEM]),
}
