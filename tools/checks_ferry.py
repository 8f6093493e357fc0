_N = ["the network keeps the contract of package net; it is played in memory (harness/fakenet), and hosts and ports are those of the scenario"]
_P = "; schedules are those without preemption unless stated"
def P(**k): return k
CHECKS["F01"] = dict(
  bounds="13 methods with parameters and results of every integer width, floats, strings up to 2 bytes, bools, lists, arrays, maps, bytes, nil and nested values, variadic and without parameters, one or two values of each symbolic over their whole range; called through a real hub in the own dock and from another one, in both directions, with and without result; the same over raw packets with symbolic index and results; histories of 1 (thorough 2) calls to 4 features with 3 methods whose names resemble each other, on one or two docks",
  note="Values, which method and feature, and the presence of a result are symbolic.",
  assumptions=_N + ["features do not change their arguments"],
  runs=[run("hferry.F01Whole", P(case=-1, back=0), note="arguments"),
        run("hferry.F01Whole", P(case=-1, back=1), note="arguments"),
        run("hferry.F01Raw", P(case=-1), note="arguments, results, index"),
        run("hferry.F01Large", P(sizes=7), note="size and content"),
        run("hferry.F01Names", P(docks=1, calls=1), thorough=P(calls=2), note="which feature and method"),
        run("hferry.F01Names", P(docks=2, calls=1), thorough=P(calls=2), note="which feature and method")])
CHECKS["F02"] = dict(
  bounds="up to 5 (thorough 6) symbolic bytes as a stream, as a packet and after a valid packet type, sent to a hub and, up to 3 (4), to a dock by its hub, a guest and a provider; packets of all 9 types and an unknown one in which the type or any field is replaced by any of 12 kinds of values with symbolic contents, also cut or prolonged; any port (64 bits) and addresses of up to 3 (4) symbolic bytes from the hub; malformed traffic while two docks register and query, with data races; well-formed traffic on other connections, in both directions, afterwards",
  note="Bytes, field values and schedules are symbolic.",
  assumptions=_N + ["packets are small: a packet that nests its values thousands of times deep is outside the bounds"],
  runs=[run("hferry.F02HubBytes", P(bytes=5, kind=0), thorough=P(bytes=6), note="bytes"),
        run("hferry.F02HubBytes", P(bytes=4, kind=1), thorough=P(bytes=5), note="bytes"),
        run("hferry.F02HubBytes", P(bytes=3, kind=2), thorough=P(bytes=5), note="bytes")]
      + [run("hferry.F02DockBytes", P(bytes=3, kind=k, **{"from": f}), thorough=P(bytes=4), note="bytes") for k, f in ((2, 0), (2, 1), (0, 1), (1, 2))]
      + [run("hferry.F02Hub", P(registered=1, ids=0, cut=0), thorough=P(cut=1), note="field values"),
         run("hferry.F02Hub", P(registered=0, ids=0, cut=1), only="thorough", note="field values"),
         run("hferry.F02Hub", P(registered=0, ids=1, cut=0), only="thorough", note="type and field values")]
      + [run("hferry.F02Dock", P(ids=0, cut=0, **{"from": f}), thorough=P(cut=1), note="field values") for f in (0, 1, 2)]
      + [run("hferry.F02Dock", P(ids=1, cut=0, **{"from": 1}), only="thorough", note="type and field values"),
         run("hferry.F02Addr", P(len=2), thorough=P(len=4), reach=["refused", "end"], note="address and port")]
      + [run("hferry.F02Concurrent", P(act=a, races=1, preempt=0), thorough=P(preempt=1), note="schedule, data races") for a in (0, 1, 2)])
CHECKS["F03"] = dict(
  bounds="3 (thorough 4) registrations from up to 2 (3) hosts while 2 (3) ports of any value are blacklisted; the last 2 ports of a host with one more port blacklisted at, before or behind the end of the range, 2 registrations too many and another host afterwards; 2 (3) docks of one host at the same time, in every schedule up to 1 preemption, with data races",
  note="Blacklisted ports, hosts and schedules are symbolic.",
  assumptions=_N,
  runs=[run("hferry.F03Ports", P(black=2, docks=3, hosts=2), thorough=P(black=3, docks=4, hosts=3), note="blacklisted ports, hosts"),
        run("hferry.F03Last", P(free=2), thorough=P(free=3), note="blacklisted port"),
        run("hferry.F03Concurrent", P(docks=3, races=1, preempt=0), thorough=P(preempt=1), note="schedule, data races"),
        run("hferry.F03Concurrent", P(docks=2, races=1, preempt=1), thorough=P(preempt=2), note="schedule, data races")])
CHECKS["F04"] = dict(
  bounds="every history of 4 (thorough 5) registrations (of any set of 2 (3) names), readiness reports (of all names or the first) and queries by up to 4 docks on two hosts, and of 3 (4) with two symbolic names; queries before, while and after two docks register and report ready, up to 1 preemption, with data races",
  note="Histories, names and schedules are symbolic.",
  assumptions=_N,
  runs=[run("hferry.F04History", P(ops=4, names=2, symbolic=0), thorough=P(ops=5, names=2), note="history"),
        run("hferry.F04History", P(ops=4, names=3, symbolic=0), only="thorough", note="history"),
        run("hferry.F04History", P(ops=3, names=2, symbolic=1), thorough=P(ops=4), note="history and names"),
        run("hferry.F04Concurrent", P(queries=2, before=1, races=1, preempt=0), thorough=P(preempt=1), note="schedule, data races"),
        run("hferry.F04Concurrent", P(queries=1, before=0, races=1, preempt=1), note="schedule, data races"),
        run("hferry.F04Concurrent", P(queries=2, before=0, races=1, preempt=0), thorough=P(preempt=1), note="schedule, data races")])
CHECKS["F05"] = dict(
  bounds="IPv4, IPv6 and zoned IPv6 peer addresses of 7 shapes with symbolic digits; every assigned port from 20001 to 49000 and from 1 to 999; a whole system with a provider on an IPv4, IPv6, zoned or loopback host that is found through the real hub and called with any 64 bit value",
  note="Digits of addresses, ports and values are symbolic.",
  assumptions=_N,
  runs=[run("hferry.F05Advertised", note="addresses"), run("hferry.F05Listen", P(digits=5), note="port"),
        run("hferry.F05Listen", P(digits=3), note="port"), run("hferry.F05Whole", note="host and value")])
CHECKS["F06"] = dict(
  bounds="2 (thorough 3) calls in flight made at any clock readings, answered in every order, each with a result or an error, with one duplicated response, one for any other index, or one from a dock that was not asked in between; 1 (2) calls made while another one is answered, then answered twice in reverse order, up to 1 (2) preemptions, with data races; 2 (3) calls to two docks of a whole system, known or found through the real hub",
  note="Orders, clock readings, indexes and schedules are symbolic.",
  assumptions=_N,
  runs=[run("hferry.F06Orders", P(calls=2, extra=1), thorough=P(calls=3), note="order, clock, index"),
        run("hferry.F06Orders", P(calls=2, extra=2), only="thorough", note="order, clock, index"),
        run("hferry.F06Served", P(calls=2), thorough=P(calls=3), note="index, who asks"),
        run("hferry.F06Concurrent", P(calls=1, preempt=1, races=1), thorough=P(preempt=2), note="schedule, data races"),
        run("hferry.F06Concurrent", P(calls=2, preempt=0, races=1), thorough=P(preempt=1), note="schedule, data races"),
        run("hferry.F06Whole", P(calls=2, preempt=0, known=1), thorough=P(calls=3), secs=20, note="schedule, clock"),
        run("hferry.F06Whole", P(calls=2, preempt=0, known=0), only="thorough", note="schedule, clock")])
CHECKS["F07"] = dict(
  bounds="every history of 4 (thorough 5) steps out of: a call, a guest or a dialled dock announces this or similarly named or no features, reports ready for these or none, the hub answers; a call made while its provider announces itself, again and again, or while two providers do, with another call waiting already, up to 1 (2) preemptions, with data races",
  note="Histories and schedules are symbolic.",
  assumptions=_N,
  runs=[run("hferry.F07History", P(ops=4), thorough=P(ops=5), note="history"),
        run("hferry.F07Same", P(calls=3), thorough=P(calls=4), note="calls and when the provider is announced"),
        run("hferry.F07Concurrent", P(calls=1, before=0, how=0, races=1, preempt=2), thorough=P(calls=2), note="schedule, data races"),
        run("hferry.F07Concurrent", P(calls=1, before=1, how=1, races=1, preempt=1), thorough=P(preempt=2), note="schedule, data races"),
        run("hferry.F07Concurrent", P(calls=1, before=1, how=2, races=1, preempt=0), thorough=P(preempt=1), note="schedule, data races"),
        run("hferry.F07Concurrent", P(calls=2, before=0, how=1, races=1, preempt=0), thorough=P(preempt=1), note="schedule, data races")])
CHECKS["F08"] = dict(
  bounds="a dock connects to a hub that answers at any moment, even before the registration, in every schedule without preemption, with data races, while its feature makes 1 (2) calls at start; 3 (5) guests, found docks, lost docks and calls in any order afterwards; a feature whose start takes time",
  note="Schedules and histories are symbolic.",
  assumptions=_N,
  runs=[run("hferry.F08Fast", P(calls=1, races=1, preempt=0, eager=0), thorough=P(preempt=1), note="schedule, data races"),
        run("hferry.F08Fast", P(calls=1, races=1, preempt=0, eager=1), thorough=P(preempt=1), note="schedule, data races"),
        run("hferry.F08Fast", P(calls=2, races=0, preempt=0, eager=1), only="thorough", note="schedule"),
        run("hferry.F08Later", P(ops=3), thorough=P(ops=5), note="history")])
CHECKS["F09"] = dict(
  bounds="3 (thorough 4) features with every choice of which are discoverable, or 2 with symbolic names, announced to the hub and to docks that connect or are dialled, in every order in which maps are visited; each called by each of the others within the dock",
  note="Which features are discoverable, names and map orders are symbolic.",
  assumptions=_N,
  runs=[run("hferry.F09Announced", P(features=3, symbolic=0, all=1), thorough=P(features=4), note="discoverable or not, map order"),
        run("hferry.F09Announced", P(features=2, symbolic=1, all=1), note="names"),
        run("hferry.F09Announced", P(features=1, symbolic=0, all=1), note="discoverable or not")])
CHECKS["F10"] = dict(
  bounds="every history of 4 (thorough 5) registration answers, other traffic, connections and closes for a dock with 2 features; 2 hubs started at the same time with up to 2 preemptions, 1 (2) hubs with 2 docks started at the same time, closed once or twice, with data races; closing while a call, a query response, a connection, calls out, announcements, or a second close are under way, up to 1 preemption (2), with data races; closing during registration",
  note="Histories and schedules are symbolic.",
  assumptions=_N,
  runs=[run("hferry.F10Start", P(features=2, ops=3), thorough=P(ops=4), note="history, map order"),
        run("hferry.F10Several", P(hubs=2, docks=0, races=1, preempt=2, calls=0, twice=1), thorough=P(hubs=3), note="schedule, data races"),
        run("hferry.F10Several", P(hubs=1, docks=2, races=1, preempt=0, calls=0, twice=0), thorough=P(twice=1), secs=15, note="schedule, data races"),
        run("hferry.F10Several", P(hubs=2, docks=2, races=0, preempt=0, calls=0, twice=1), only="thorough", note="schedule"),
        run("hferry.F10Register", P(races=1, preempt=1, dup=1), thorough=P(preempt=2), note="schedule, data races")]
      + [run("hferry.F10Busy", P(act=a, races=1, preempt=1 if a in (4, 5) else 0), thorough=P(preempt=2 if a == 5 else 1), note="schedule, data races") for a in range(6)])
CHECKS["F11"] = dict(
  bounds="every history of 5 (thorough 6) registrations and visits of 2 names by 2 slots, and of 3 (5) with two symbolic names; 2 visits of one slot and name at the same time with up to 2 preemptions, and with a registration and other visits with up to 1 (2), with data races; a maker that visits another feature",
  note="Histories, names and schedules are symbolic.",
  assumptions=["a maker does not visit the feature it makes"],
  runs=[run("hferry.F11History", P(names=2, slots=2, ops=5, symbolic=0), thorough=P(ops=6), note="history"),
        run("hferry.F11History", P(names=2, slots=2, ops=3, symbolic=1), thorough=P(ops=5), note="history and names"),
        run("hferry.F11Concurrent", P(visits=2, races=1, preempt=1, more=0), thorough=P(preempt=2), note="schedule, data races"),
        run("hferry.F11Concurrent", P(visits=2, races=1, preempt=1, more=1), thorough=P(preempt=2), note="schedule, data races"),
        run("hferry.F11Nested", note="")])
CHECKS["F12"] = dict(
  bounds="12 kinds of calls, some of which succeed: unknown methods of up to 3 and unknown features of up to 2 symbolic bytes, too few, too many, inconvertible or nil arguments, methods that run longer or shorter than the timeout; each in a whole system locally and remotely with and without result, and as a raw request with any index; responses with any cause of up to 3 (thorough 5) bytes; 4 kinds of results and 5 of arguments that cannot be sent",
  note="Names, arguments, indexes and causes are symbolic.",
  assumptions=_N + ["a feature's method does not panic"],
  runs=[run("hferry.F12Whole", note="names and arguments"), run("hferry.F12Answer", note="names, arguments, index"),
        run("hferry.F12Caller", P(len=3), thorough=P(len=5), note="cause and result"),
        run("hferry.F12Unsendable", note="values")])
