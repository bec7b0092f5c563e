#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

UART="zigpy_cc/uart.py"; API="zigpy_cc/api.py"; ZPI="zigpy_cc/zpi_object.py"; BUF="zigpy_cc/buffalo.py"
DEF="zigpy_cc/definition.py"; APP="zigpy_cc/zigbee/application.py"; ZNP="zigpy_cc/zigbee/start_znp.py"
NV="zigpy_cc/zigbee/nv_items.py"; TYP="zigpy_cc/types.py"; CFG="zigpy_cc/config.py"; EXC="zigpy_cc/exception.py"; COM="zigpy_cc/zigbee/common.py"

prop("C01", "Outgoing serial frames are encoded exactly and decode back to themselves",
 "Whatever frame is handed to the serial gateway (any of the four command types, any known subsystem, any command id, any payload of 0 to 250 bytes), the bytes written are exactly the start byte 0xFE, the payload length, the byte combining type and subsystem, the command id, the payload unchanged, and the XOR checksum of everything between start byte and checksum. Feeding those bytes to a receiver yields exactly one frame with the same type, subsystem, id and payload.",
 ["inputs"], "all command types x subsystems x command ids x payload contents for every payload length 0..250",
 "Tests encode a handful of fixed frames (max payload a few bytes); no test varies length, id or content.",
 [UART], [("frame encoder", UART+":UnpiFrame.to_buffer"), ("checksum", UART+":UnpiFrame.calculate_checksum"), ("gateway send", UART+":Gateway.send"), ("frame decoder", UART+":UnpiFrame.from_buffer")],
 ["bytes passed to transport.write"])

prop("C02", "Receiver delivers exactly the valid frames of any byte stream and resynchronises",
 "For any sequence of received bytes, a frame is delivered if and only if a complete, checksum-correct frame of a known type and subsystem occurs at a frame boundary, it is delivered as soon as its last byte arrives, in order, once, with exactly the type, subsystem, id and payload that were sent. Bytes outside frames are skipped one by one, a frame with a wrong checksum or an unknown type or subsystem is discarded whole and nothing else with it, and the frame that follows is received normally.",
 ["inputs", "histories"], "all byte streams: any bytes for one frame of every length byte 0..255 fed from an idle receiver, and all short streams (noise, bad and good frames in any order)",
 "Tests feed a few hand-written valid frames and one noise byte; the space of corrupted or back-to-back streams is unbounded.",
 [UART], [("byte-wise frame parser", UART+":Parser.write"), ("decoder and checksum test", UART+":UnpiFrame.from_buffer"), ("receive loop", UART+":Gateway.data_received")],
 ["frames handed to the API layer"], [("receive buffer", "bytes of the frame received so far", UART+":Parser.buffer")])

prop("C03", "How received bytes are cut into chunks never changes what is delivered",
 "The sequence of frames delivered for a stream of received bytes depends only on the bytes, not on how the operating system splits them into reads: any segmentation, including one byte at a time, several frames in one read, or a frame spread over many reads, gives the same frames in the same order.",
 ["inputs", "schedules"], "all contents and all segmentations of streams of several frames with noise between them",
 "Tests use one fixed segmentation per stream; segmentation is chosen by the OS at run time.",
 [UART], [("receive loop", UART+":Gateway.data_received"), ("partial frame state", UART+":Parser.write")],
 ["frames handed to the API layer"])

prop("C04", "A bad or unprocessable frame never affects the frames around it",
 "When a received frame cannot be processed (unknown type, subsystem or command, truncated or undecodable payload, wrong checksum) or a handler of it fails, every other frame in the same or later reads is still processed completely: pending requests answered by it complete with its content, notifications in it reach the application. The failure is contained: no exception escapes to the serial transport and no pending request is lost or completed with the wrong frame.",
 ["inputs", "fault_sequences"], "all contents of the faulty frame (every fault kind, any position before, between or after good frames, same or separate reads)",
 "Tests never mix a faulty frame with good ones; only one test raises from the application and only for a single frame.",
 [UART, API, ZPI], [("receive loop", UART+":Gateway.data_received"), ("frame dispatch", API+":API.data_received"), ("payload decoding", ZPI+":ZpiObject.from_unpi_frame")],
 ["results of pending requests", "application notifications"])

prop("C05", "Every command is put on the wire with its documented id and field layout",
 "For every command of the MT protocol table and every in-range argument value, the frame transmitted has the command's type, subsystem and command id and a payload consisting of the arguments in table order, each at its width in little-endian order, with buffers, lists and 64-bit addresses copied unchanged. A value that does not fit its field, or a missing argument, makes the call fail with nothing transmitted.",
 ["inputs"], "all commands of the protocol table x all argument values (each integer over its whole range and beyond, buffers and lists of several lengths)",
 "Tests encode about ten of ~270 commands with one argument set each.",
 [ZPI, BUF, DEF], [("command lookup", ZPI+":ZpiObject.from_command"), ("serialisation", ZPI+":ZpiObject.to_unpi_frame"), ("field writer", BUF+":Buffalo.write_parameter"), ("protocol table", DEF+":Definition")],
 ["bytes passed to transport.write"])

prop("C06", "Every response and notification is decoded into the documented fields",
 "For every response and notification of the MT protocol table whose fields are supported, and for every field value, decoding the frame yields exactly the documented field names with the transmitted values (little-endian integers, signed where documented, network addresses, 64-bit addresses, buffers and lists of the transmitted length). A payload too short for its fields is rejected, never decoded into shortened or invented values.",
 ["inputs"], "all responses/notifications of the protocol table x all field contents, buffer/list lengths 0..N, and every truncation of the payload",
 "Tests decode about a dozen fixed frames; truncation is hardly tested.",
 [ZPI, BUF, DEF, TYP], [("frame decoding", ZPI+":ZpiObject.from_unpi_frame"), ("field walker", ZPI+":ZpiObject.read_parameters"), ("field reader", BUF+":Buffalo.read_parameter"), ("protocol table", DEF+":Definition")],
 ["decoded command objects"])

prop("C07", "Decoding and re-encoding a message is lossless",
 "Decoding a received message and encoding the result again reproduces the received frame byte for byte, and encoding a command, receiving it and decoding it returns the same argument values, for every message whose fields the codec supports in both directions. This holds for every content including neighbour tables (whose reserved bits are zero), cluster and endpoint lists, 64-bit addresses and empty or maximal buffers.",
 ["inputs"], "all messages of the protocol table with supported fields x all contents x several list/buffer lengths",
 "Tests round-trip a few recorded frames.",
 [ZPI, BUF, DEF], [("decoding", ZPI+":ZpiObject.from_unpi_frame"), ("encoding", ZPI+":ZpiObject.to_unpi_frame"), ("neighbour entries", BUF+":Buffalo.read_neighbor_lqi / write_neighbor_lqi")],
 ["frame bytes", "decoded values"])

prop("C08", "A synchronous request gets the response to its own command and nothing else",
 "A synchronous request completes only with a synchronous response of the same subsystem and command received after the request was sent, and returns that response's content; every other frame (other command, other subsystem, notifications with the same name, responses before the request) leaves it pending. Frames received meanwhile that are not its response are still passed to the application and to the other pending waits.",
 ["inputs", "schedules"], "all frame contents and all interleavings of a few unrelated frames before and after the request",
 "Tests answer each request with exactly its response immediately.",
 [API], [("request", API+":API._request_raw"), ("response matching", API+":Waiter.match"), ("dispatch", API+":API.data_received")],
 ["result of request", "application notifications"])

prop("C09", "Unexpected status codes are reported with their value; expected ones succeed",
 "A request whose response carries a status outside the caller's expected statuses (only 0 by default) fails with a command error exposing exactly that status, and one whose status is expected, or which has no status, returns the response. When a data or device request fails this way, the caller gets the status and a message instead of an exception, and the reply the caller was going to wait for is no longer awaited; this holds also if that wait has already ended.",
 ["inputs", "schedules"], "all 256 status values x expected-status sets x requests with and without a pending reply (still pending, answered or expired)",
 "Tests check status 0 and one failing status; the interplay with an already ended reply wait is untested.",
 [API, APP, EXC], [("status policy", API+":API._request_raw"), ("error type", EXC+":CommandError"), ("status tuples", APP+":ControllerApplication.request / mrequest / broadcast")],
 ["result or exception of request"])

prop("C10", "At most one synchronous request is outstanding, and failures free the channel",
 "However many requests are issued concurrently, a request is written to the serial port only after the previous one has been answered, failed, timed out or been cancelled, in the order they were issued, each exactly once. After any such outcome, including an encoding error or a failing write, the next waiting request is sent and completes with its own response.",
 ["schedules", "fault_sequences"], "all interleavings and outcomes (response, bad status, timeout, cancellation, encoding error, write failure) of several concurrent requests with symbolic response times",
 "Tests issue requests one at a time.",
 [API], [("request lock", API+":API.request_raw")],
 ["order and time of transport writes", "request results"])

prop("C11", "Every wait ends: documented timeouts are exact and leave nothing behind",
 "A request that gets no response fails with a timeout 6 s after it was sent (20 s for commissioning start and application start-up commands, 30 s for a reset awaiting its indication), a response arriving earlier completes it, and one arriving later is ignored. Once its wait has expired a pending wait no longer takes part in matching, so a late or repeated message is never consumed by it nor kept from a newer wait for the same message.",
 ["schedules", "fault_sequences"], "all response arrival times (microsecond resolution) from 0 to beyond the timeout, for every command class",
 "Tests cover one timeout with real time scaled down; arrival times near the limit and later reuse are untested.",
 [API, TYP], [("timeout choice", API+":API._request_raw"), ("timed wait", API+":Waiter.wait"), ("expiry callback", API+":API.wait_for"), ("timeouts", TYP+":Timeouts")],
 ["result and completion time of requests"], [("pending waits", "waits not yet answered or expired", API+":API._waiters")])

prop("C12", "Replies of devices are attributed to the request that caused them",
 "When several requests of the same kind are outstanding, each reply is attributed to exactly one of them: the oldest one still waiting for a reply of that kind from that sender, and it is reported with that request's transaction number whatever that number is (0 to 255). A reply nobody waits for, or from another sender, is attributed to none.",
 ["inputs", "histories"], "all transaction numbers and sender addresses, all orders of replies for up to three outstanding requests",
 "Tests use one outstanding request with one transaction number.",
 [API], [("reply wait creation", API+":API.create_response_waiter"), ("matching and attribution", API+":API.data_received"), ("payload match", API+":Waiter.match")],
 ["transaction number reported with the reply"])

prop("C13", "Device-management requests reach the coordinator with every field intact",
 "Each Zigbee device-management request (network/IEEE address, node descriptor, active endpoints, simple descriptor, match descriptor, bind/unbind, management LQI/routing/binding/leave/permit-join) issued through the application is transmitted as the matching coordinator command addressed to the target device with every field of the request unchanged, the leading transaction number removed, and nothing else. A permit-join request to the all-routers broadcast address is marked as broadcast, any other as a 16-bit address.",
 ["inputs"], "all target addresses, transaction numbers and request field values for every supported request kind",
 "Tests translate four requests with one set of values.",
 [ZPI, APP], [("request translation", ZPI+":ZpiObject.from_cluster"), ("application request", APP+":ControllerApplication.request")],
 ["bytes passed to transport.write"])

prop("C14", "Application data is sent to the right address, endpoint and cluster unchanged",
 "Unicast, group and broadcast messages of any application profile are transmitted as one data request carrying the given destination (device, group or broadcast address, with the matching address mode), endpoints (group messages: endpoint 255, source endpoint 1 if none is given), cluster, transaction number, radius (30 by default, the given radius for broadcasts) and the payload with its exact length. Only profile 0 messages are treated as device-management requests; a payload that cannot be represented fails without transmitting anything.",
 ["inputs"], "all addresses, endpoints, clusters, transaction numbers, profiles, radii and payload contents (lengths 0..N)",
 "Tests send one unicast, one multicast and one broadcast message with profile 0x0104.",
 [ZPI, APP], [("request translation", ZPI+":ZpiObject.from_cluster"), ("unicast/multicast/broadcast", APP+":ControllerApplication.request / mrequest / broadcast")],
 ["bytes passed to transport.write"])

prop("C15", "Management replies reach the stack byte-exact with their transaction number",
 "A device-management reply of a forwarded kind (neighbour table, permit-join, node descriptor, active endpoints, simple descriptor, bind) that answers an outstanding request is handed to the stack exactly once, for the device it came from, on endpoint 0, with the matching cluster and a payload made of the request's transaction number followed by exactly the reply's content as transmitted (reserved bits of neighbour entries being zero). A reply that answers no outstanding request is not handed on.",
 ["inputs"], "all reply kinds (LQI table, permit join, node descriptor, active endpoints, simple descriptor, bind) x all contents x all transaction numbers and senders",
 "Tests forward three recorded replies.",
 [APP, API], [("reply forwarding", APP+":ControllerApplication.handle_znp"), ("reply table", APP+":REQUESTS"), ("attribution", API+":API.data_received")],
 ["messages handed to the stack"])

prop("C16", "Incoming application messages are delivered once, to the right device, unchanged",
 "Each incoming application message (short or extended form, 16-bit or 64-bit source) from a known device is handed to the stack exactly once for exactly that device with the transmitted cluster, source and destination endpoint and payload, and the device's link quality is updated with the transmitted value. A message from an unknown device is dropped without any effect on other messages, and no other notification is ever handed on as an application message.",
 ["inputs"], "all source addresses (known and unknown), clusters, endpoints, link qualities and payload contents",
 "Tests deliver two recorded messages from one device.",
 [APP], [("notification handling", APP+":ControllerApplication.handle_znp")],
 ["messages handed to the stack", "device radio details"])

prop("C17", "A joining device is announced once with the addresses it sent",
 "Each device announcement notification makes the application report one join with exactly the network address and 64-bit address the device announced and no parent, and if the device is known the announcement is also handed to the stack as a device-announce message with transaction number 0 and the announced content. No other notification ever reports a join.",
 ["inputs"], "all network addresses, 64-bit addresses and capability bytes, and all other notification kinds",
 "Tests announce one device.",
 [APP], [("announcement handling", APP+":ControllerApplication.handle_znp")],
 ["joins reported", "messages handed to the stack"])

prop("C18", "Permit-join is transmitted exactly and shown by the LED",
 "Opening the network for a duration of 0 to 254 seconds transmits one permit-join request to all routers and the coordinator, as a broadcast, with exactly that duration; any other duration is refused with nothing transmitted. Permit-join indications switch the LED off for duration 0 and on for any other; a permit-join reply switches it on; on adapters of type Z-Stack 3.x.0 no LED command is ever sent.",
 ["inputs", "configurations"], "all durations, all indication contents, all adapter types",
 "Tests use one duration and one adapter type.",
 [APP], [("permit", APP+":ControllerApplication.permit_ncp"), ("LED", APP+":ControllerApplication.set_led / handle_znp")],
 ["bytes passed to transport.write"])

prop("C19", "An adapter that already holds the configured network is never rewritten",
 "If the adapter reports itself configured and holds the configured channel list, key-distribution flag, network key, PAN id and extended PAN id, starting it changes none of its stored items, does not reset or commission it and reports that the network was resumed; any difference in one of these items makes it be reinitialised and reported as reset (or restored, for an unconfigured adapter of the oldest type). On the newer adapter types a stored PAN id of 0xFFFF (never set) is accepted, and the extended PAN id is then not compared either. If one of the items cannot be read the start fails with nothing changed.",
 ["inputs", "configurations"], "all values of all stored items and all network configurations, for each adapter type; one start-up",
 "Tests run two recorded adapter states.",
 [ZNP, NV], [("decision", ZNP+":needsToBeInitialised / validate_item"), ("outcome", ZNP+":start_znp"), ("items", NV+":Items")],
 ["commands transmitted", "outcome reported"])

prop("C20", "Initialisation writes exactly the configured network, and it then resumes",
 "When an adapter is initialised, what is stored in it afterwards is exactly the configured channel list, network key, PAN id, extended PAN id and key-distribution flag together with the coordinator role and the fixed start-up items, in the byte order the adapter expects, and the item marking it configured is written last, only after every other step succeeded. Starting again with the same configuration finds it matching and resumes without rewriting; if any step fails or the start is aborted there, the next start initialises it again.",
 ["inputs", "configurations", "fault_sequences", "crash_points"], "all network configurations and adapter types; failure or abort at every command of the sequence",
 "Tests compare one command sequence for one configuration, with no failure.",
 [ZNP, NV, COM], [("initialisation", ZNP+":initialise"), ("item encoding", NV+":Items"), ("item ids", COM+":NvItemsIds")],
 ["stored items of the adapter", "commands transmitted"])

prop("C21", "After start-up the coordinator runs with all endpoints and the green-power group",
 "Start-up completes only when the adapter is a running coordinator: it is started unless it reports so already and its confirmation is awaited. Every required endpoint that is missing is registered with its documented profile, device id and clusters, registered ones are left alone, and endpoint 242 is put in the green-power group 0x0B84 unless it already is.",
 ["inputs", "configurations"], "all device states, all sets of already active endpoints, both group states, each adapter type",
 "Tests cover one active-endpoint list and one device state.",
 [ZNP], [("boot", ZNP+":boot"), ("endpoints", ZNP+":registerEndpoints / Endpoints"), ("group", ZNP+":addToGroup")],
 ["commands transmitted"])

prop("C22", "Application start-up reflects the connected adapter or fails",
 "After a successful start-up the application's own address is the adapter's 64-bit and network address, exactly one coordinator device with them is registered, and the concurrency limit and LED policy follow the adapter type reported by it. A failing ping, an unknown adapter type or an unanswered query makes start-up fail with an error rather than complete.",
 ["inputs", "fault_sequences"], "all version and device-info contents, a failure or missing answer at each step",
 "Tests mock the adapter with one product and one address.",
 [APP, API], [("startup", APP+":ControllerApplication.startup"), ("version", API+":API.version")],
 ["application state", "commands transmitted"])

prop("C23", "Concurrency is bounded and every slot is given back",
 "At most 16 requests (adapter type Z-Stack 3.x.0) or 2 (others) of unicast, group, broadcast and permit-join kind are in progress at once, and further ones wait. Whatever the outcome of a request (success, bad status, timeout, cancellation, encoding or write failure) its slot is given back, so that afterwards the full number is available again; group and broadcast messages keep theirs for the 0.2 s settling time.",
 ["schedules", "fault_sequences"], "all outcomes and interleavings of several concurrent requests on either limit",
 "Tests never run more than one request at a time, and never check slots after failures.",
 [APP], [("slot handling", APP+":ControllerApplication.request / mrequest / broadcast / permit_ncp"), ("limit", APP+":ControllerApplication.startup")],
 ["order and time of transport writes"])

prop("C24", "Unexpected disconnects lead to reconnection, deliberate closes never",
 "When the serial connection drops unexpectedly the application closes it and tries to start up again every 5 seconds until it succeeds, whatever the errors in between, and then stops trying. After a deliberate close or shutdown no reconnection is started, and probing a port always leaves it closed and answers true only if the adapter answered the version query within 2 seconds.",
 ["fault_sequences", "schedules"], "all sequences of failures (port cannot be opened, no answer, error status) of bounded length before success, all answer times of a probe",
 "Tests simulate one lost connection with a mocked start-up.",
 [UART, API, APP], [("loss detection", UART+":Gateway.connection_lost / close"), ("propagation", API+":API.connection_lost"), ("reconnect loop", APP+":ControllerApplication.reconnect"), ("probe", API+":API.probe")],
 ["port openings and closings over time", "result of probe"])

prop("C25", "The serial port is opened exactly as configured",
 "The port is opened with the configured path and baud rate, 8N1, RTS/CTS only for hardware flow control and XON/XOFF only for software flow control, and nothing is reported connected before the port is open and the bootloader-exit byte 0xEF was written followed by a one-second pause. With path 'auto' the port is the single detected adapter; none or several detected adapters are an error and no port is opened.",
 ["configurations"], "all baud rates, flow-control settings, paths and sets of up to four detected ports",
 "Tests open one configuration; autodetection is tested for single lists.",
 [UART, CFG], [("connect", UART+":connect"), ("detection", UART+":detect_port"), ("schema", CFG+":SCHEMA_DEVICE")],
 ["arguments of the port opening", "bytes written", "time"])

prop("C26", "Network settings come from the configuration, defaults only fill what is absent",
 "Every network setting given in the configuration (PAN id, extended PAN id, network key, channels) is used as given, for every valid value including zero ones; only a setting that is absent gets the documented default (PAN id 0x1A62, extended PAN id dd:dd:dd:dd:dd:dd:dd:dd, the default key; channels: the default of zigpy's configuration schema, or channel 11 when the configuration holds none at all). The network key is never distributed in clear.",
 ["configurations"], "all values of each setting and all 16 combinations of present and absent settings",
 "Tests use the defaults only.",
 [TYP, CFG], [("settings", TYP+":NetworkOptions")],
 ["settings handed to start-up / items written to the adapter"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
