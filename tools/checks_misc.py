CHECKS["M01"] = dict(
  bounds="every history of 3 (thorough 4) operations Add, Remove, ToSlice, writing to the returned slice, on two sets with 2 items of 7 kinds (ints, strings, pointers, structs, bools, nil) of any value, possibly equal; every history of 4 (thorough 5) operations on one set with 3 items; sets of 8 (thorough 16) distinct items with 3 arbitrary operations on them",
  note="Operations, items and their values are symbolic; the oracle is a list searched with ==.",
  assumptions=["items are comparable and not NaN", "a set is used by one goroutine at a time"],
  runs=[run("hmisc.M01Set", {"ops": 3, "items": 2, "kinds": 7, "sets": 2}, thorough={"ops": 4}, reach=["add", "remove", "list", "end"], note="the operations and the items"),
        run("hmisc.M01Set", {"ops": 4, "items": 3, "kinds": 1, "sets": 1}, thorough={"ops": 5, "kinds": 2}, reach=["add", "remove", "list", "end"], note="the operations and the items"),
        run("hmisc.M01Long", {"n": 8, "rounds": 3}, thorough={"n": 16, "rounds": 3}, note="the items and the operations")])
