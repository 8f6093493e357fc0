_T = "durations are multiples of 1/8 s below 2 s (all of them, symbolic)"
CHECKS["H01"] = dict(
  bounds="2 callers x 1 call in every schedule; 2 x 2 and 3 x 1 calls in every schedule without preemption (thorough: 1 and 2 preemptions); separate callers and one caller shared by goroutines; 3 successive calls by 2 callers to methods with different timeouts and pauses between them; " + _T + "; data races on 2 x 1 calls",
  note="Schedules, durations and therefore which calls time out are symbolic.",
  assumptions=["time passes only when no goroutine can run; timers due at the same instant fire in any order"],
  runs=[run("hchan.H01Calls", {"callers": 2, "calls": 1, "timeout": 1, "shared": 0, "preempt": -1, "races": 0}, reach=["allok", "mixed", "end"], note="schedule and durations"),
        run("hchan.H01Calls", {"callers": 2, "calls": 1, "timeout": 1, "shared": 1, "preempt": -1, "races": 1}, reach=["allok", "mixed", "end"], note="schedule, durations, data races"),
        run("hchan.H01Late", {"calls": 2, "timeout": 1}, thorough={"calls": 3}, reach=["timeout", "end"], note="durations, pauses, callers and methods"),
        run("hchan.H01Calls", {"callers": 2, "calls": 2, "timeout": 1, "shared": 0, "preempt": 0, "races": 0}, thorough={"preempt": 1}, reach=["allok", "mixed", "end"], secs=150, note="schedule and durations"),
        run("hchan.H01Calls", {"callers": 3, "calls": 1, "timeout": 1, "shared": 1, "preempt": 0, "races": 0}, thorough={"preempt": 2}, reach=["allok", "mixed", "end"], secs=150, note="schedule and durations")])
CHECKS["H02"] = dict(
  bounds="one call with each of 9 timeouts (default, 0.5, 2, 1.5, 0.25, 0.1, 2.75, 0.001, 3600.5 s) and any duration up to 5000 s in nanoseconds, in every schedule; any float32 timeout between 1 ms and 2 s (thorough 60 s) against a method that never finishes in time; 2 (thorough 3) calls in sequence to methods with different timeouts, " + _T,
  note="The duration of the method (64-bit nanoseconds) and the timeout are symbolic; a tolerance of 1 ms is allowed.",
  assumptions=["time passes only when no goroutine can run", "timeouts are configured before the call is made and are positive"],
  runs=[run("hchan.H02Timeout", {"timeouts": 9}, reach=["ok", "timeout"], note="method duration, schedule"),
        run("hchan.H02Sequence", {"calls": 2}, thorough={"calls": 3}, reach=["timeout", "end"], note="durations, methods, timeouts"),
        run("hchan.H02Float", {"max": 2}, thorough={"max": 60}, note="the timeout")])
CHECKS["H03"] = dict(
  bounds="3 calls submitted one after another in every schedule, 4 calls without preemption (thorough: with 1 preemption; 5 calls without), also with a pause of any multiple of 1/4 s below 2 s in between; timeouts of 1/2 and 3/2 s; " + _T,
  note="Schedules, durations and pauses are symbolic; the request queue of the callee (2 entries) fills up.",
  assumptions=["time passes only when no goroutine can run"],
  runs=[run("hchan.H03Order", {"calls": 3, "timeout": 1, "preempt": -1, "pause": 0}, reach=["timeout", "end"], note="schedule and durations"),
        run("hchan.H03Order", {"calls": 4, "timeout": 1, "preempt": 0, "pause": 0}, thorough={"preempt": 1}, reach=["timeout", "end"], note="schedule and durations"),
        run("hchan.H03Order", {"calls": 3, "timeout": 3, "preempt": 0, "pause": 1}, thorough={"preempt": 1}, reach=["timeout", "end"], note="schedule, durations, pause"),
        run("hchan.H03Order", {"calls": 5, "timeout": 1, "preempt": 0, "pause": 0}, only="thorough", reach=["timeout", "end"], note="schedule and durations")])
CHECKS["H04"] = dict(
  bounds="39 kinds of wrong calls (count, type and nil mismatches for 11 method signatures, one variadic) with symbolic values, one (thorough two) of them between correct calls on the same and another caller, with Call and CallWithResult; every method name of up to 4 (thorough 8) bytes that does not exist with 0 to 2 arguments; a wrong and a correct call concurrently in every schedule",
  note="Names, values and schedules are symbolic, signatures are enumerated.",
  runs=[run("hchan.H04Bad", {"bad": 1}, thorough={"bad": 2}, note="argument values"),
        run("hchan.H04Name", {"n": 4}, thorough={"n": 8}, note="the method name"),
        run("hchan.H04Concurrent", note="schedule")])
CHECKS["H05"] = dict(
  bounds="every pair of 11 integer argument and parameter kinds with every representable value; 24 other pairs (floats, strings, bytes, bools, interfaces, pointers, lists, maps, errors, named types, nil) with symbolic values and strings of up to 2 bytes; 6 arguments and 8 results of different types at once; up to 3 (thorough 6) variadic arguments; 3 (thorough 6) calls whose results are kept",
  note="Values are symbolic over their whole range, pairs of types are enumerated.",
  runs=[run("hchan.H05Int", note="argument value"), run("hchan.H05Other", note="argument value"), run("hchan.H05Many", note="argument values"),
        run("hchan.H05Nils", note="which arguments and results are nil"),
        run("hchan.H05Variadic", {"n": 3}, thorough={"n": 6}, note="argument values"), run("hchan.H05Caller", {"calls": 3}, thorough={"calls": 6}, note="argument values")])
