CHECKS["C01"] = dict(
  bounds="one scalar of each of 20 kinds (nil, bool, every integer width, float32/64, string, named types) with every bit pattern; string lengths 0,1,2,3,255,256,257 (thorough: also 65535..65537), content arbitrary; streams of 2 (thorough 3) values of 8 kinds",
  note="All bit patterns of every scalar kind within the stated string lengths and stream length are decided by z3 over the real encoder and decoder.",
  runs=[run("hcodec.C01Scalar", {"strlens": 7}, thorough={"strlens": 10}, note="the value of the scalar, the byte that follows"),
        run("hcodec.C01Long", {"lens": 6}, thorough={"lens": 7}, note="bytes of a long string"),
        run("hcodec.C01Stream", {"count": 2, "kinds": 8}, thorough={"count": 3, "kinds": 8}, note="the values and kinds of a stream")])
CHECKS["C02"] = dict(
  bounds="22 container shapes (typed and untyped lists, arrays, maps with int/uint/string/bool/float keys, named types, one level of nesting, empty and nil) with up to 2 elements (thorough 3), all element and key values of every bit pattern, distinct keys, every map order; lists of 255, 256 (thorough 257, 300, 65535, 65536) elements",
  note="Shapes and counts are enumerated; element values, keys and map iteration order are symbolic.",
  assumptions=["map keys are distinct in value and not NaN"],
  runs=[run("hcodec.C02Container", {"elems": 3}, quick={"count": 2, "elems": 2}, thorough={"count": 3, "elems": 4}, note="element values, keys, map order"),
        run("hcodec.C02LongMap", {"lens": 2}, thorough={"lens": 4}, note="an entry of a large map"),
        run("hcodec.C02Long", {"lens": 3}, thorough={"lens": 6}, steps=200000000, note="first and last element of a long list")])
CHECKS["C03"] = dict(
  bounds="arbitrary byte strings of up to 7 bytes (thorough 10); container and string headers with arbitrary length prefix and 4 (thorough 6) arbitrary bytes after it; map keys of any kind with 4 (thorough 6) arbitrary bytes; nested headers with 4 (thorough 6) arbitrary bytes; every proper prefix of the encoding of every scalar kind and container shape; a single allocation is at most 1 MiB",
  note="Inputs are fully symbolic byte buffers; nesting deeper than the buffers allow (stack exhaustion by millions of nested headers) is outside the bound.",
  runs=[run("hcodec.C03Free", {"n": 7}, thorough={"n": 10}, reach=["error", "value"], note="every byte of the input and the value held before"),
        run("hcodec.C03Header", {"n": 4}, thorough={"n": 6}, note="length prefix and following bytes"),
        run("hcodec.C03Key", {"n": 6}, thorough={"n": 6}, note="bytes of the key"),
        run("hcodec.C03Nested", {"n": 4}, thorough={"n": 6}, note="bytes of the inner container"),
        run("hcodec.C03Truncated", {"elems": 2, "count": 1}, thorough={"elems": 3, "count": 2}, note="values, and where the input ends"),
        run("hcodec.C03Collide", note="keys, and where the input ends")])
CHECKS["C04"] = dict(
  bounds="scalars of 15 kinds (strings up to 3 bytes) and 22 container shapes with 1 (thorough 2) elements; each read of a scalar returns everything, 1 byte, half or all but one (every size when at most 2, thorough 4, bytes are asked for); containers: at most 2 (thorough 3) such short reads, anywhere; end of input reported with or after the last bytes; also streams that end early at arbitrary places",
  note="Fragmentation is a symbolic choice of every Read call.",
  runs=[run("hcodec.C04Scalar", {"strlens": 4, "max": 4, "short": 99}, quick={"strlens": 3, "max": 2}, thorough={"strlens": 7, "max": 4}, reach=["whole", "truncated"], note="values and every chunk size"),
        run("hcodec.C04Container", {"count": 1, "elems": 2, "max": 1, "short": 2}, thorough={"count": 2, "max": 2, "short": 3}, reach=["whole", "truncated"], note="values and every chunk size")])
CHECKS["C05"] = dict(
  bounds="15 scalar kinds and 22 container shapes with up to 2 elements; one of the first 3 (thorough 8) Write calls fails after accepting none, half or all but one of its bytes; every map iteration order for maps of 2",
  note="Which write fails, how much it accepts, all values and the map order are symbolic.",
  runs=[run("hcodec.C05Write", {"writes": 3, "elems": 2}, quick={"count": 1}, thorough={"writes": 8, "count": 2}, reach=["failed", "worked"], note="values, failing write, accepted part"),
        run("hcodec.C05MapOrder", {"elems": 1}, thorough={"elems": 4}, note="map order and values")])
CHECKS["C06"] = dict(
  bounds="20 scalar kinds and 22 container shapes with up to 1 (thorough 2) elements, fresh and after a decode into an object that held something else; every accessor",
  note="All values of the wrapped object are symbolic.",
  runs=[run("hcodec.C06Accessors", {"elems": 2}, quick={"count": 1}, thorough={"count": 2}, reach=["decoded", "fresh", "float", "signed", "unsigned"], note="the wrapped value")])
