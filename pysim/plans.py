"""Run counts (quick, thorough) and evidence texts of the Python simulations."""
RUNS = {
    "C11": (30000, 800000), "C12": (6000, 150000), "C13": (7000, 200000), "C14": (8000, 200000), "C15": (22000, 600000),
    "C16": (13000, 300000), "C17": (9000, 250000), "C18": (6000, 150000), "C20": (3500, 150000),
}
RULES = {
    "C11": "One case = 2-6 calls whose output shares memory with an input, another view or the interpolator's own data; non-trivial = memory was really shared. Distinct = distinct hash of layouts and outcomes.",
    "C12": "One case = one simulated process with 2-4 real Python threads under a seeded schedule; non-trivial = at least two hand-overs inside calls. Distinct = distinct hash of the hand-over sequence and results.",
    "C13": "One case = a call interrupted 1-3 times by an asynchronous exception, then retried, with calls before and after; non-trivial = an exception was really raised inside the call. Distinct = distinct hash of places and outcomes.",
    "C14": "One case = a history with saves and 1-5 generations of restore in fresh processes; non-trivial = at least one restore. Distinct = distinct hash of history and outcomes.",
    "C15": "One case = 4-12 independently damaged saves and an intact one; non-trivial = at least one damage with effect. Distinct = distinct hash of damages and outcomes.",
    "C16": "One case = a history of calls with the caller's arrays rewritten, resized or freed between and during calls; non-trivial = at least one such change and one call. Distinct = distinct hash of history and outcomes.",
    "C17": "One case = 3-9 damaged requests, each followed by intact calls; non-trivial = at least one was refused. Distinct = distinct hash of damages and outcomes.",
}
RULES["C18"] = "One case = a history of 3-14 steps in one process tree (plain, refilled, fresh, repeated, interrupted, threaded, copied, dropped, forked and killed); non-trivial = more than one call and at least one such event. Distinct = distinct hash of outcomes and events."
RULES["C20"] = "One case = one to three calls, each interrupted at bytecode boundaries (often at every one) and by the sequences it reads, where other calls are made, some of them interrupted themselves; non-trivial = at least one call was made inside another. Distinct = distinct hash of places and outcomes."
REAL = ["interpn Python package and extension built from /repo (features python, fma)", "CPython 3.12, numpy, pydantic of the sandbox", "real processes (forked, or freshly started) and threads"]
STUB = {
    "C11": ["none"],
    "C12": ["thread scheduler: which thread runs after each bytecode or native point without the interpreter lock is decided by the seed"],
    "C13": ["delivery of asynchronous exceptions: at the seeded bytecode boundary"],
    "C14": ["storage: the saved text is handed to the next process by the simulator"],
    "C15": ["storage: the saved text is damaged by the simulator"],
    "C16": ["the other thread that owns the arrays: its writes happen at seeded bytecode boundaries"],
    "C17": ["the caller: arguments damaged by the simulator"],
    "C20": ["the signal handler or finaliser: code run at the seeded bytecode boundary of the same thread"],
    "C18": ["delivery of asynchronous exceptions and of SIGKILL: at the seeded bytecode boundary"],
}
ASSUME = {
    "C12": ["Native code that holds the interpreter lock is one step: no other Python thread can run there in CPython with the lock."],
    "C13": ["Interruption points are bytecode boundaries of the library and of Python code it calls, outside pydantic's own machinery, which absorbs some exceptions; MemoryError only in the library's own frames. A save interrupted inside a serialiser may complete, because pydantic retries."],
    "C14": ["All NaNs count as one value: JSON text cannot carry payloads."],
    "C15": ["Numbers and booleans are read with pydantic's documented lax conversions; JSON is read by Python's json module in the oracle."],
    "C17": ["Requests that are accepted because the interface documents a conversion (casting, flattening) must give the result for the converted data."],
}
