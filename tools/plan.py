"""What runs for each property."""
RM = "runtime monitoring: "
PLAN = {
    "C01": dict(steps=[dict(bin="c01", scale=2)],
        technique=RM + "reference-model oracle over randomly generated eager operation calls",
        note="every result element of the executed calls is compared with an independent coordinate-wise double-precision model carrying a single-precision error bound; says nothing about shapes and values not generated"),
    "C02": dict(steps=[dict(bin="c02", scale=2)],
        technique=RM + "shape-rule oracle over randomly generated valid and near-miss calls, eager and lazy",
        note="acceptance, result shapes and the moment of rejection are compared with independent shape rules; says nothing about combinations not generated"),
    "C03": dict(steps=[dict(bin="c03", scale=3)],
        technique=RM + "differential oracle: random programs executed lazily and eagerly",
        note="values of lazily evaluated nodes of random programs, queried in random orders, are compared with the eager run and the reference model"),
    "C04": dict(steps=[dict(bin="c04", scale=3)],
        technique=RM + "reference-model oracle (dual numbers) over vector-Jacobian products of single operations",
        note="the executed gradient of each sampled operation call with random upstream gradients is compared element by element with forward-mode derivatives of the reference model"),
    "C05": dict(steps=[dict(bin="c05", scale=3)],
        technique=RM + "reference-model oracle (dual numbers) over backward passes of random programs",
        note="accumulated parameter and node gradients of random programs after one or several passes are compared with forward-mode total derivatives; exact on the integer programs"),
    "C11": dict(steps=[dict(bin="c11", scale=3)],
        technique=RM + "before/after and run/re-run bitwise monitors over random programs on poisoned memory",
        note="operands and bystanders are compared bitwise before and after, results bitwise across repetitions with recycled, garbage-filled buffers"),
    "C25": dict(steps=[dict(bin="c25", scale=3)],
        technique=RM + "differential oracle: batched programs against per-sample programs",
        note="values and gradients of random batched programs are compared with the same program run sample by sample"),
    "C06": dict(steps=[dict(bin="c06")],
        technique=RM + "online trace monitor over logged operator and kernel calls, against a model of the graph",
        note="custom operators and an interposed backend log every forward and backward call; the log of each random graph and query history is checked against the required set and order"),
    "C26": dict(steps=[dict(bin="c26", scale=3)],
        technique=RM + "contract-checking backend: independent kernels that check every call, differential against the built-in backend",
        note="every kernel call of random programs, single calls, hostile calls and training is checked for live own buffers, computed contents, shapes and arguments; results are compared with the reference"),
    "C27": dict(steps=[dict(bin="c27", scale=4)],
        technique=RM + "reference-model oracle over kernels called by name on garbage-filled destinations; call recorder over random registrations",
        note="every built-in kernel is called directly with destinations full of garbage or preset gradients and compared with the reference; registered user kernels record what reaches them"),
    "C12": dict(steps=[dict(bin="c12", scale=3)],
        technique=RM + "reference-model oracle (update rules with error bounds) checked after every step of random training histories",
        note="after every step of random training histories each value is compared with the published rule applied to the observed value and gradient and the model's own statistics"),
    "C13": dict(steps=[dict(bin="c13", scale=4)],
        technique=RM + "reference-model oracle and bitwise before/after monitors on every step of random training histories",
        note="decay, clipping, rate scale, gradient reset, step counter, settings and untouched parameters are checked after every step of random training histories"),
    "C14": dict(steps=[dict(bin="c14")],
        technique=RM + "bitwise before/after monitors on save/load round trips, differential against uninterrupted training",
        note="contents of reloaded random objects are compared bitwise with what was saved, interrupted training bitwise with the uninterrupted run"),
    "C15": dict(steps=[dict(bin="c15", scale=4, mem=6 << 30, oom_violation=True)],
        technique=RM + "acceptance oracle and invariant monitors over mutated saved data, under an address space limit",
        note="loading of hostile data must return; acceptance is compared with the rule where it is known, accepted objects are checked for consistency and used"),
    "C16": dict(steps=[dict(bin="c16", gen="gen_c16", gen_violation="a valid model struct does not compile")],
        technique=RM + "address-level enumeration oracle over generated model structs",
        note="random structs deriving the model trait are generated together with an independent list of their parameters; enumeration, configuration, update and moving of random instances are compared with it"),
    "C20": dict(steps=[dict(bin="c20")],
        technique=RM + "line-by-line oracle over index queries on random tensors and nodes",
        note="each returned index is checked against the values of its line; says nothing about shapes and values not generated"),
    "C22": dict(steps=[dict(bin="c22", scale=4)],
        technique=RM + "reference-model oracle over random histories of shape operations",
        note="every observable of the shapes met in random histories is compared with an independent model, including refusals near the limits of the size type"),
    "C08": dict(steps=[dict(bin="c08", scale=2)],
        technique=RM + "ledger monitor in an interposed backend over direct requests, threads and complete workloads",
        note="every buffer request, release and kernel call of the executed histories is checked against a ledger of live buffers: capacity, exclusive ownership, freed exactly once"),
    "C09": dict(steps=[dict(bin="c09")],
        technique=RM + "ledger and counting-allocator monitors over repeated workloads, memory compared with the demand",
        note="backend requests after the warm-up, held memory against peak demand, and live host bytes are observed over repeated random workloads"),
    "C21": dict(steps=[dict(bin="c21", scale=4)],
        technique=RM + "model-based monitor of every tensor after every step of random histories",
        note="after every in-place update, copy, view, replacement, move or refused call all tensors of the history are compared with a model"),
    "C10": dict(steps=[dict(bin="c10"), dict(bin="c10", build="tsan", name="tsan", args=["--mode", "tsan"])],
        technique=RM + "differential oracle (alone against concurrent), progress watchdog and thread sanitizer under injected delays and faults",
        note="results of workloads run by several threads on one device are compared with the same workloads alone; the thread sanitizer watches the same runs; only the schedules that occurred are judged"),
    "C07": dict(steps=[dict(bin="c07", build="asan", name="asan"), dict(bin="c07", build="msan", name="msan", args=["--mode", "msan"]), dict(bin="c10", build="tsan", name="tsan", args=["--mode", "tsan"])],
        technique=RM + "address, memory and thread sanitizers over random valid and hostile histories on exact-size buffers, refusal oracle for device functions",
        note="the sanitizers see every access of the executed calls because every buffer has exactly the requested size and is freed at once; direct device calls are also checked for being refused exactly when operands do not fit"),
    "C17": dict(steps=[dict(bin="c17")],
        technique=RM + "statistical oracle over the draws of random histories (ranges, distribution, independence), threads included",
        note="ranges and exact cases are checked on every draw, distributions by tests with false alarm probabilities below 1e-12: deviations of less than a few percent are not seen"),
    "C19": dict(steps=[dict(bin="c19")],
        technique=RM + "reference-model oracle over values and derivatives of the contributed layers, statistical oracle over dropout masks",
        note="values and gradients of sampled calls are compared with the reference within its rounding bound; masks are checked per element against the result and statistically over many calls"),
    "C23": dict(steps=[dict(bin="c23", scale=4)],
        technique=RM + "reference-model oracle over extreme, clustered and threshold inputs, values and derivatives",
        note="values and gradients of sampled calls on hostile inputs are compared with a shifted double-precision reference within the rounding bound of the line; finiteness, range and sum are checked on every line"),
    "C18": dict(steps=[dict(bin="c18", scale=4)],
        technique=RM + "fault injection at every kind of event with before/after and undisturbed-run oracles, ledger of buffers",
        note="faults are injected at sampled events of sampled calls; all bystanders are compared with their values before, repeated and later calls with an undisturbed device, buffers with a ledger"),
    "C24": dict(steps=[dict(bin="c24", cpu=480, cpu_violation=True, mem=14 << 30, oom_violation=True)],
        technique=RM + "exact-value oracle, kernel-call counters and processor-time growth monitor over huge graphs on small stacks",
        note="values, gradients, counted kernel calls and processor time of the executed graphs are judged; the growth bound only tells quadratic from linear"),
}
