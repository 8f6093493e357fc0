#!/usr/bin/env python3
"""Writes known-findings.json: the defects found by the checks. All of them are
repaired in /repo, so no entry suppresses anything."""
import json, os
F = [
 ("C04", "61df810", "a fragmented or truncated stream decoded to zero bytes instead of the value sent or an error (C03, C04)"),
 ("C01", "4cd7bef", "0.0 and other floats with small bit patterns panicked in the decoder (C01, C03)"),
 ("C03", "59fb129", "a list or map as map key panicked in the decoder"),
 ("C03", "2c29c5b", "a five byte input made the decoder allocate gigabytes"),
 ("C05", "df9d0df", "a failed write of the type code of a float was not reported"),
 ("C03", "e4ee606", "a failed Decode left value and type of the receiver at odds, accessors panicked afterwards"),
 ("C06", "57fc48d", "int, uint, named and typed container values were refused by every accessor or made it panic"),
 ("H02", "cb230ae", "the fraction of a configured timeout was cut off, timeouts below 1 s were 0"),
 ("H04", "205030f", "a call to an unknown method or with wrong arguments crashed the process (H04, H05)"),
 ("H01", "d6801d0", "a caller shared by goroutines, or used again after a timeout, returned the response of another call"),
 ("N05", "92a858e", "the serializer registry was accessed by several goroutines without a lock"),
 ("N03", "22d28e8", "connections stayed open after Close, Close and Send raced, a second Close or a packet while closing crashed"),
 ("N04", "7d5fdf0", "a connection closed by the other side was not reported, or its last packets were lost"),
 ("N07", "aecaf62", "mock connections lost bytes when reads were smaller than writes and did not report their end"),
 ("F02", "0e5ddad", "malformed packets ended the process"),
 ("F02", "159823d", "an address or port that cannot be used ended the process"),
 ("F04", "43d3a71", "the hub's list of docks was accessed without its lock, queries were answered by docks that were not ready"),
 ("F10", "13c959c", "a packet that arrives while a hub closes crashed it (F02, F10)"),
 ("F05", "51ca7c2", "docks on IPv6 hosts were advertised with an address that cannot be dialled"),
 ("F03", "8ed6b79", "the hub exited when a host had no port left (F02, F03)"),
 ("F06", "10249fe", "two remote calls made at one clock reading had the same index"),
 ("F06", "8c25390", "a duplicated or unsolicited response answered a call or crashed, the table of calls was accessed without a lock"),
 ("F07", "3dd09e6", "a waiting call was sent twice or never, depending on the order of discovery messages"),
 ("F08", "7a9c18b", "requests to locate a feature went to another dock when the hub answered fast"),
 ("F10", "6ffb946", "features were started again by a second answer to the registration"),
 ("F10", "21dd112", "hubs and docks started at the same time were not all closed"),
 ("F12", "3ceb29f", "a remote call of a feature that does not exist there never returned"),
 ("F12", "c90d95c", "arguments and results that cannot be sent ended the process (F02, F12)"),
 ("F11", "bbc61d9", "concurrent visits crashed or made an object twice"),
 ("F01", "2261a2f", "lists and maps from another dock were rejected by methods that take typed ones"),
]
out = [dict(property=p, key="", what=w, fixed="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in F]
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json")
json.dump(out, open(d, "w"), indent=1)
open(d, "a").write("\n")
