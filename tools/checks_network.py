_S = "schedules up to the stated number of preemptions (0: switches only where a goroutine waits; every: all of them)"
CHECKS["N01"] = dict(
  bounds="up to 3 packets of up to 2 bytes (thorough 3 and 3) and an unfinished one, cut in every possible way, on accepted and dialled connections, with the txt serializer and a length prefixed one; 2 packets of 7 sizes from 1 to 25000 bytes around the receive buffer, cut at 20 places around it or in 5 other ways; 2 connections with every interleaving and fragmentation of up to 4 bytes each; 2 connections whose receivers and senders run in every schedule without preemption",
  note="Packet contents, sizes, cuts, interleavings and schedules are symbolic.",
  assumptions=["the transport delivers bytes in order, as net.Conn does"],
  runs=[run("hnet.N01Fragments", {"packets": 3, "size": 2, "ser": 0, "dial": 0}, thorough={"size": 3}, note="contents and cuts"),
        run("hnet.N01Fragments", {"packets": 3, "size": 2, "ser": 1, "dial": 1}, thorough={"size": 3}, note="contents and cuts"),
        run("hnet.N01Two", {"packets": 2, "size": 1}, thorough={"size": 2}, note="contents, cuts, interleaving"),
        run("hnet.N01Big", {"packets": 1, "sizes": 7, "chunks": 6}, thorough={"packets": 2}, note="sizes and cuts"),
        run("hnet.N01Keep", {"packets": 4, "size": 30}, thorough={"packets": 8}, note="bodies and cuts"),
        run("hnet.N01Sched", {"packets": 1, "preempt": 0}, thorough={"packets": 2}, secs=30, note="schedule and cuts")])
CHECKS["N02"] = dict(
  bounds="5 (thorough 7) objects sent by one goroutine in every schedule with the writer, 20 with up to 1 (2) preemption; 3 (4) rounds of sending up to as many as the queue holds and draining 0, 3 or 20 of them; up to 20 objects more than the queue holds; 3 sends on sockets with 2 and 3 connections, mixed between peers and socket; 2 goroutines sending on 2 connections with up to 2 preemptions and 3 goroutines without, with data races; 2 goroutines sending while the queue is nearly full with up to 1 (2) preemptions",
  note="Objects, destinations, pauses and schedules are symbolic.",
  assumptions=["the connection writes what it is given or fails, as net.Conn does"],
  runs=[run("hnet.N02Order", {"sends": 5, "preempt": -1}, thorough={"sends": 7}, note="objects, schedule"),
        run("hnet.N02Order", {"sends": 20, "preempt": 1}, thorough={"preempt": 2}, note="objects, schedule"),
        run("hnet.N02Queue", {"rounds": 3}, thorough={"rounds": 4}, note="objects, numbers of sends and writes"),
        run("hnet.N02Overrun", {"extra": 20}, note="number of sends"),
        run("hnet.N02Fan", {"conns": 2, "sends": 3}, thorough={"sends": 4}, note="objects and destinations"),
        run("hnet.N02Fan", {"conns": 3, "sends": 3}, note="objects and destinations"),
        run("hnet.N02Concurrent", {"preempt": 1, "third": 0, "races": 1}, thorough={"preempt": 2}, note="schedule, data races"),
        run("hnet.N02Concurrent", {"preempt": 0, "third": 1, "races": 1}, thorough={"preempt": 1}, note="schedule, data races"),
        run("hnet.N02Stuck", {"preempt": 1}, thorough={"preempt": 2}, note="schedule, fill level")])
_acts = {0: "a connection comes in and sends", 1: "packets arrive", 2: "packets are sent", 3: "the other side closes", 4: "somebody else closes too", 5: "packets are sent to all", 6: "a write fails"}
CHECKS["N03"] = dict(
  bounds="Close of a listening socket with 1 (2) connections while " + ", ".join(_acts.values()) + ", each with up to 2 preemptions (incoming connection: 1, thorough 2) and with data races; the same for a dialled socket while it dials, packets arrive, packets are sent, the other side closes, somebody else closes, with up to 2 (3) preemptions, and dialling in every schedule; Close from each callback of the sink; Close while the connection takes no data with 0 to 25 packets waiting; Close once more afterwards",
  note="Schedules are symbolic; what is in flight is enumerated.",
  assumptions=["the listener and connections keep the contract of package net"],
  runs=[run("hnet.N03Listen", {"before": 1, "act": 0, "preempt": 0, "races": 1, "again": 1}, thorough={"preempt": 1}, reach=["late", "end"], secs=30, note="schedule, data races"),
        run("hnet.N03Listen", {"before": 0, "act": 0, "preempt": 1, "races": 1, "again": 0}, thorough={"preempt": 2}, reach=["late", "end"], note="schedule, data races")]
      + [run("hnet.N03Listen", {"before": 2 if a in (1, 4) else 1, "act": a, "preempt": 2, "races": 1, "again": a % 2}, thorough={"before": 2, "preempt": 3}, note="schedule, data races") for a in (1, 2, 3, 4, 5, 6)]
      + [run("hnet.N03Dial", {"act": a, "preempt": 2, "races": 1}, thorough={"preempt": 3}, note="schedule, data races") for a in range(5)]
      + [run("hnet.N03Dial", {"act": 0, "preempt": -1, "races": 0}, reach=["after", "end"], note="schedule"),
         run("hnet.N03Callback", {"conns": 1}, note="which callback"), run("hnet.N03Callback", {"conns": 2}, note="which callback"),
         run("hnet.N03Stuck", note="number of packets")])
CHECKS["N04"] = dict(
  bounds="1 to 3 connections of a listening socket, one of which ends after any prefix of two packets and an unfinished one, with io.EOF, another error, or the end reported together with the last bytes; the same for 2 connections with up to 1 (2) preemptions at two of the prefixes; a write that fails at the first, second or third packet, alone and while the other side closes, with up to 1 (2) preemptions and data races; traffic on the other connections and a new one afterwards, then Close",
  note="Packet contents, where the stream ends and schedules are symbolic.",
  assumptions=["the listener and connections keep the contract of package net"],
  runs=[run("hnet.N04Remote", {"conns": 1, "preempt": -1}, note="contents, end of the stream"),
        run("hnet.N04Remote", {"conns": 3, "preempt": -1}, note="contents, end of the stream"),
        run("hnet.N04Remote", {"conns": 2, "preempt": 1}, thorough={"preempt": 2}, note="schedule"),
        run("hnet.N04Write", {"preempt": 1, "races": 1, "both": 0}, thorough={"preempt": 2}, note="schedule, data races"),
        run("hnet.N04Write", {"preempt": 1, "races": 1, "both": 1}, thorough={"preempt": 2}, note="schedule, data races")])
CHECKS["N05"] = dict(
  bounds="2 (thorough 3) goroutines that each register a serializer, create a socket and listen or dial, in every schedule without preemption (thorough: with 1), with data races; every history of 4 (5) registrations and sockets over 4 names, two of which differ in case",
  note="Schedules and histories are symbolic.",
  assumptions=["every name a socket is created with is registered before"],
  runs=[run("hnet.N05Concurrent", {"goroutines": 2, "preempt": 0}, thorough={"goroutines": 3}, secs=40, note="schedule, data races"),
        run("hnet.N05Concurrent", {"goroutines": 2, "preempt": 1}, only="thorough", note="schedule, data races"),
        run("hnet.N05Names", {"ops": 4}, thorough={"ops": 5}, reach=["socket", "end"], note="history")])
CHECKS["N06"] = dict(
  bounds="1 accepted connection or 1 dialled one with up to 2 preemptions; 2 accepted ones with 0 (1), 1 accepted and 1 dialled one with 0 (1) preemptions; each has sent a packet before it is accepted; afterwards nothing, all are closed, or the other side closes",
  note="Schedules are symbolic.",
  assumptions=["the listener and connections keep the contract of package net"],
  runs=[run("hnet.N06Attribution", {"conns": 1, "dial": 0, "preempt": 2}, thorough={"preempt": 3}, note="schedule"),
        run("hnet.N06Attribution", {"conns": 0, "dial": 1, "preempt": 2}, thorough={"preempt": 4}, note="schedule"),
        run("hnet.N06Attribution", {"conns": 2, "dial": 0, "preempt": 0}, thorough={"preempt": 1}, note="schedule"),
        run("hnet.N06Attribution", {"conns": 1, "dial": 1, "preempt": 0}, thorough={"preempt": 1}, note="schedule"),
        run("hnet.N06Attribution", {"conns": 2, "dial": 1, "preempt": 0}, only="thorough", note="schedule")])
CHECKS["N07"] = dict(
  bounds="2 (thorough 3) writes of 1, 2, 10240, 10241 or 25000 bytes in either direction, with the reader before or after, then the end from either side; 1 write with up to 1 (2) preemptions and data races; 3 writes and Close at once with up to 1 preemption, and the address used again; 1 or 2 clients that dial before or after the server listens, with up to 1 (1) and 0 (1) preemptions and data races",
  note="Contents, sizes, directions and schedules are symbolic. The mock connections are driven through sockets, whose reads take up to 10240 bytes.",
  runs=[run("hnet.N07Mock", {"writes": 2, "sizes": 5, "preempt": -1, "races": 0, "settle": 1}, thorough={"writes": 3}, note="contents, sizes, directions"),
        run("hnet.N07Mock", {"writes": 1, "sizes": 1, "preempt": 1, "races": 1, "settle": 0}, thorough={"preempt": 2}, note="schedule, data races"),
        run("hnet.N07Close", {"preempt": 0, "races": 1, "again": 1}, thorough={"preempt": 1}, note="schedule, data races"),
        run("hnet.N07Several", {"clients": 1, "preempt": 1, "races": 1}, thorough={"preempt": 2}, note="schedule, data races"),
        run("hnet.N07Several", {"clients": 2, "preempt": 0, "races": 1}, thorough={"preempt": 1}, secs=30, note="schedule, data races")])
