#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

# ---------------------------------------------------------------- HSMS
p("H01", "A request receives exactly its own reply, never another message",
  "When several callers have requests outstanding on one HSMS connection, each call that succeeds returns the secondary message that the peer sent in answer to that very request (same system bytes, same transaction), whatever the order, delay or duplication of the peer's replies. A primary message from the peer is never handed to a waiting caller as its reply, even if its system bytes equal those of an outstanding request; it reaches the handler for its stream and function.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of concurrent senders, of replies (reordered, delayed, duplicated, unsolicited) and of peer-initiated primaries whose system bytes collide",
  "The tests run one or a few requests against a well-behaved peer on real sockets; which goroutine runs between registering a waiter and the arrival of the reply is never chosen.",
  ["hsms/protocol.go","utils/queue.go"],
  [("per-system-bytes waiter queue","hsms/protocol.go SendAndWait / connReceiverThread"),("blocking deque","utils/queue.go")],
  ["value returned by SendAndWait","bytes on the wire","registered handlers"])
p("H02", "A reply that arrives in time is delivered; otherwise the wait ends at T3",
  "A request whose reply reaches the library before the reply timeout T3 expires returns that reply. If no reply arrives, the call returns an error once T3 has elapsed (neither before nor noticeably after), exactly one S9F9 carrying the ten header bytes of the timed-out request is sent on the connection that carried it, and a reply that arrives later is not given to any other caller.",
  ["schedules","fault_sequences"],
  "every reply delay around and away from T3, every interleaving of the receiving and waiting threads, lost replies, connection loss while waiting",
  "A lost wake-up between the receiver and the waiter needs one specific preemption point; the tests see it only as occasional flakiness and use replies that arrive within milliseconds.",
  ["hsms/protocol.go","utils/queue.go","hsms/error_messages.go","hsms/protocol_s9_helpers.go"],
  [("timed get on the waiter queue","utils/queue.go"),("S9F9 on timeout","hsms/protocol_s9_helpers.go")],
  ["return and simulated duration of SendAndWait","S9F9 frames on the wire"])
p("H03", "Each received primary is handled exactly once, in order, and answered once",
  "Every well-formed data message that arrives in the selected state on the accepted session is passed to the handler for its stream and function exactly once, in the order of arrival on that connection. If the message asked for a reply and its handler returns one, exactly one reply goes out with the same stream, function plus one, the same session and system bytes; if the message did not ask for a reply, none is sent. An answer the application gives later with SendResponse goes out once, as given, with the system bytes passed, and succeeds while the connection is selected.",
  ["schedules","inputs","histories"],
  "every sequence of primaries (with and without wait bit, mixed with replies and control messages), every segmentation and interleaving with handlers that themselves send requests",
  "Existing tests send single messages one at a time; ordering and duplication under concurrency, segmentation and handler re-entrancy are not sampled.",
  ["hsms/protocol.go"],
  [("receive loop dispatch","hsms/protocol.go connReceiverThread/handleDataMessage"),("handler invocation and reply","hsms/protocol.go invokeHandler")],
  ["handler invocations","reply frames on the wire"])
p("H04", "Data messages flow only while the connection is selected",
  "A data message received while the connection is not selected never reaches a handler or a waiting caller, and one that was received on an earlier connection is never taken for one of the present connection. No data message is ever put on the wire while the connection is not selected, nor on a later connection than the one it was meant for: attempts to send then return an error. An endpoint with the wildcard session ID (0xFFFF or 0) adopts the session of the peer whose select request it accepts and uses it from then on.",
  ["schedules","histories","inputs"],
  "every interleaving of select/deselect/separate with data in both directions, every session ID",
  "Tests exercise the selected steady state; traffic racing select, deselect and separate is not produced.",
  ["hsms/protocol.go","hsms/connectionStateMachine.go"],
  [("state test before dispatch","hsms/protocol.go"),("session check/adoption","hsms/protocol.go")],
  ["handler invocations","frames on the wire","errors from the send API"])
p("H05", "Every HSMS control request is answered once with its own system bytes",
  "In every connection state each Select.req, Deselect.req and Linktest.req received is answered by exactly one response of the matching type with the same system bytes, and the connection state afterwards matches the status sent: a Select.req for the endpoint's session is accepted (status 0, also when already selected), one for a foreign session is denied and its connection closed, a Deselect.req is accepted and ends the selection. Separate.req ends the selected session without an answer, and control responses nobody asked for never change the state.",
  ["schedules","histories","inputs"],
  "every sequence and interleaving of control messages, including duplicates, unsolicited responses, unknown types and control messages concurrent with data",
  "Tests check single control exchanges at the state-machine unit level, not sequences over a live connection.",
  ["hsms/protocol.go","hsms/connectionStateMachine.go","hsms/connection.go"],
  [("control message switch","hsms/protocol.go handleHsmsRequests"),("state machine","hsms/connectionStateMachine.go")],
  ["control frames on the wire","CurrentState()"])
p("H06", "Messages cross the byte stream intact under any segmentation and concurrency",
  "Whatever way the transport cuts the byte stream into segments and however many callers send at the same time, every message accepted by the send API appears on the wire exactly once, contiguous and complete, and every message received is decoded to exactly the items the peer encoded, including items and lists of 256 and more elements. A send that reports success has put the whole message on the wire or the connection has failed.",
  ["schedules","inputs","fault_sequences"],
  "every segmentation (down to one byte per segment), every number of concurrent senders, message sizes from header-only through the one-, two- and three-byte length ranges, write errors",
  "Loopback sockets deliver small messages in one segment and the tests' messages are short.",
  ["codec/secs2.go","codec/bufio.go","hsms/protocol.go","hsms/connection.go","session.go","lib-secs2-hsms-go/pkg/parser/hsms/parser.go"],
  [("length-prefixed framing","codec/secs2.go"),("session send lock","session.go"),("item decoder","lib-secs2-hsms-go/pkg/parser/hsms/parser.go")],
  ["bytes on the wire","messages passed to handlers"])
p("H07", "No peer input or disconnect pattern crashes or wedges an endpoint",
  "Whatever bytes a peer sends (garbage, truncated, absurd lengths, malformed or deeply nested items) and whenever it connects, stalls, resets or closes, the process does not panic, does not deadlock and does not allocate memory in proportion to an unreceived declared length. After the misbehaving connection is gone, an enabled endpoint serves the next correct peer normally.",
  ["inputs","fault_sequences","schedules"],
  "every byte string, every point at which the connection breaks, every interleaving with the endpoint's own threads",
  "Tests never send malformed input over a live connection nor break a connection at a chosen instant.",
  ["hsms/protocol.go","hsms/connection.go","codec/secs2.go","lib-secs2-hsms-go/pkg/parser/hsms/parser.go","gem/handler.go"],
  [("receive-loop error handling","hsms/protocol.go"),("message length checks","codec/secs2.go"),("decoder bounds","lib-secs2-hsms-go/pkg/parser/hsms/parser.go")],
  ["panics","deadlocks","allocation","subsequent exchange with a good peer"])
p("H08", "Once faults stop, an enabled pair returns to selected and exchanges data",
  "If both endpoints stay enabled and the network stops failing, then after any history of connection losses, resets, stalls, partitions, refused dials and peer restarts both endpoints reach the selected state and a request in each direction is answered, within a bounded time derived from the configured timers. From then on the connection stays selected, no other connection is made, and requests go on being answered. During the faults too, every request of a surviving process ends, is served at most once, and is only ever given its own answer; two ends that fill the connection in both directions recover as well.",
  ["fault_sequences","schedules","crash_points"],
  "every sequence of faults at every instant, including during connect, select, linktest and data transfer, in both active/passive roles",
  "The tests contain one reconnect happy path; the fault instant is never chosen.",
  ["hsms/protocol.go","hsms/reconnection.go","hsms/connectionStateMachine.go"],
  [("connect thread","hsms/protocol.go"),("reconnect backoff","hsms/reconnection.go"),("disconnect clean-up","hsms/protocol.go")],
  ["CurrentState()","SendAndWait in both directions"])
p("H09", "Active reconnection follows the configured policy",
  "An active endpoint that loses or cannot obtain its connection dials again while enabled, waiting at least the configured connect-separation between attempts, backing off up to the configured maximum, and never running two connection attempts or two live connections at once. It stops after the configured maximum number of failed attempts, or at once when automatic reconnection is off, and the count starts afresh after a successful connection.",
  ["fault_sequences","schedules","configurations"],
  "every pattern of refused, slow, accepted-then-dropped connections and every policy configuration",
  "Delays of seconds to minutes are not run by unit tests; only the delay computation is tested.",
  ["hsms/protocol.go","hsms/reconnection.go","hsms/SecsTimeout.go"],
  [("connect thread","hsms/protocol.go"),("backoff","hsms/reconnection.go")],
  ["dial instants seen by the simulated network","number of live connections"])
p("H10", "A connection not selected within T7 is dropped, a selected one never is",
  "A TCP connection that stays connected without being selected for T7 is closed once T7 expires, and the endpoint is then ready for a new connection. The T7 timer never closes a connection that is selected, nor a later connection than the one it was started for.",
  ["schedules","fault_sequences"],
  "every instant of select relative to T7 expiry, every sequence of connections, selects, deselects and losses",
  "Needs the timer to race the select exchange or to outlive its connection; real-time tests cannot choose that.",
  ["hsms/connectionStateMachine.go","hsms/protocol.go"],
  [("T7 timer","hsms/connectionStateMachine.go"),("timeoutT7 callback","hsms/protocol.go")],
  ["close instants on the simulated network","CurrentState()"])
p("H11", "A message stalled for T8 mid-transfer is abandoned, a complete one is not",
  "If after the start of a message the rest of it does not arrive for longer than the inter-character timeout T8, the endpoint drops that connection instead of waiting for ever, and it never delivers a partial message. A connection on which messages keep arriving completely within T8 is not dropped by this timer.",
  ["fault_sequences","schedules"],
  "every byte position of the stall and every stall length around T8",
  "No test stalls a connection in the middle of a message.",
  ["hsms/protocol.go","session.go","codec/secs2.go"],
  [("read deadline","hsms/protocol.go connReceiverThread")],
  ["close instants on the simulated network","handler invocations"])
p("H12", "Disable ends all activity and Enable always brings the endpoint back",
  "After disabling an endpoint returns, no handler runs for data received later, no connection or listener of it stays open, no dial is made, and it reports itself not connected; its background tasks end within a bounded time. After any sequence of enable and disable calls at any instants (including during dialling, selecting, or traffic), ending with enable, the endpoint becomes selected again with a willing peer, and ending with disable it is quiet. A GEM handler on it is enabled and disabled likewise (a repeated call changes nothing), and once disabled it is not communicating and its equipment is offline.",
  ["schedules","histories"],
  "every sequence and timing of Enable/Disable, in both roles, relative to every stage of connection establishment",
  "Tests enable once and disable once at quiescence.",
  ["hsms/protocol.go","gem/handler.go"],
  [("Enable/Disable","hsms/protocol.go"),("connect thread","hsms/protocol.go"),("Enable/Disable of the GEM handler","gem/handler.go")],
  ["sockets of the simulated network","live tasks","CurrentState()/Connected()"])
p("H13", "The reported connection state is legal and agrees with the wire",
  "The reported connection state only moves along the transitions of the HSMS connection state model (not connected, connected not selected, connected selected), it is never 'selected' unless a select exchange completed on the present connection, and once the connection is gone it becomes 'not connected'. The connected flag agrees with it whenever the endpoint is at rest.",
  ["schedules","fault_sequences","histories"],
  "every sampled history of faults, control messages and API calls",
  "The unit tests drive the state machine directly and sequentially.",
  ["hsms/connectionStateMachine.go","hsms/protocol.go"],
  [("state machine","hsms/connectionStateMachine.go")],
  ["CurrentState()","Connected()","control frames on the wire"])
p("H14", "Linktests run at the configured interval on the live connection and only there",
  "While a connection is up the endpoint sends linktest requests at the configured interval - never more often, regardless of how many times the connection was lost and re-established - and none once the connection is gone or on behalf of an earlier connection. Each linktest carries fresh system bytes and an answered one disturbs nothing.",
  ["schedules","fault_sequences","histories"],
  "every sequence of connects, selects, deselects and losses, every interval setting",
  "A leaked timer loop shows only after several reconnects and tens of seconds.",
  ["hsms/protocol.go","hsms/connection.go","hsms/SecsTimeout.go"],
  [("linktest loop","hsms/protocol.go")],
  ["linktest frames on the wire with simulated times"])
p("H15", "System bytes of outstanding transactions are unique",
  "No two requests (data or control) that one endpoint has outstanding at the same time on a connection carry the same system bytes, whatever the number of concurrent callers, and also when the counter wraps around.",
  ["schedules","histories"],
  "every interleaving of concurrent allocations, every counter position including the wrap",
  "Allocation is unsynchronised in places only an adverse interleaving reveals; tests allocate sequentially.",
  ["hsms/protocol.go"],
  [("system-bytes counter","hsms/protocol.go")],
  ["primary frames on the wire"])
p("H16", "Unknown streams and functions draw one S9 error and never an S9 storm",
  "A primary whose stream has no handler is answered by exactly one S9F3, one whose stream is known but whose function has no handler by exactly one S9F5, each naming the offending stream or function and carrying that primary's system bytes, unless a default handler takes it. Stream 9 messages themselves never draw an error message, so two endpoints cannot keep each other busy with error messages, and a received stream 9 message is reported to the application once.",
  ["inputs","histories","schedules"],
  "every stream/function, wait bit, handler registration state and interleaving, with two real endpoints or one adversarial peer",
  "Tests check the message builders; the exchange between two live endpoints is not observed.",
  ["hsms/protocol.go","hsms/protocol_s9_helpers.go","hsms/error_messages.go"],
  [("unrecognised-message path","hsms/protocol_s9_helpers.go")],
  ["S9 frames on the wire","S9 notification callback"])

p("H17", "The message log holds each message once, whole and as configured",
  "With message logging enabled, every data message sent or received gets exactly one entry in the configured writer: direction, stream and function, session, wait bit and system bytes of the message that was on the wire, with its SML, its bytes in hexadecimal or both as the mode says; control messages get one too if they are included and their type is not excluded (spelling case and blanks do not matter). An entry is written before the message goes out or is handed to its handler, received messages in order of arrival; the writer is never used by two at once and entries never mingle. A reconfiguration at run time applies to every message from then on. Nothing is logged when logging is off; a failing writer changes neither the log nor the traffic.",
  ["inputs","schedules","histories","faults"],
  "every mix of concurrent sends, receptions, control exchanges, reconfigurations, connection losses and disables, with prompt, slow, failing and short-writing writers",
  "Tests look at no log output; entries of concurrent senders, of losses and of run-time reconfiguration depend on the interleaving.",
  ["hsms/protocol.go","hsms/connection.go","hsms/protocol_s9_helpers.go","gem/config.go"],
  [("data entries","hsms/protocol.go"),("control entries","hsms/connection.go"),("GEM options","gem/config.go")],
  ["what the configured writers are given","frames on the wire"])

# ---------------------------------------------------------------- GEM
p("G01", "Communicating is entered only by an accepted handshake on a live connection",
  "A GEM handler reports communicating only after an S1F13/S1F14 exchange with acceptance code 0 on the connection that is currently selected, and it leaves that state when that connection is lost (within the half-second monitoring interval) or the handler is disabled. Callers waiting for communication are released exactly when it is reached and communication callbacks fire once per establishment. Every S1F13 of the peer on a selected connection is answered by an accepting S1F14 that names the endpoint (model and revision of equipment, nothing for a host). A call that is for the other role, or that needs communication while it is not established, fails and sends nothing.",
  ["schedules","fault_sequences","histories"],
  "every interleaving of handshakes from both sides with loss, denial, timeouts, disable and reconnection",
  "Handshake races and late completions after loss need chosen interleavings.",
  ["gem/handler.go","gem/communication_state.go"],
  [("communication state manager","gem/communication_state.go"),("handshake and monitor","gem/handler.go")],
  ["CommunicationState()","WaitForCommunicating","handler events","S1F13/S1F14 frames"])
p("G02", "Establish-communications is retried after the configured delay until accepted",
  "The first attempt to establish communication is made within the half-second monitoring interval after the connection is selected; a failed attempt (denied, unanswered or malformed) is repeated after the configured establishment delay - not sooner - for as long as the connection stays selected, and communication is reached once the peer accepts. An established communication is not torn down by timers or attempts left over from before.",
  ["schedules","fault_sequences","configurations"],
  "every pattern of denied/unanswered/late S1F14 and peer-initiated S1F13, every delay setting",
  "Delays of seconds and stale timers are outside what the real-time tests run.",
  ["gem/handler.go","gem/communication_state.go"],
  [("retry timer","gem/handler.go"),("monitor loop","gem/handler.go")],
  ["S1F13 frames with simulated times","CommunicationState()"])
p("G03", "Control-state changes are legal, acknowledged correctly and reported in order",
  "The equipment's control state moves only along the GEM control state model in response to operator and host requests, loss of communication takes an online or attempting equipment to equipment-offline and leaves host-offline alone, S1F15 is acknowledged with 0, S1F17 with 0 from host-offline, 2 when already online and 1 otherwise, and change events form one unbroken chain in which every event's previous state is the state reported by the event before it. A rejected or overtaken attempt leaves the state as the model says.",
  ["schedules","histories"],
  "every interleaving of operator switches, host S1F15/S1F17 and attempt-online exchanges (accepted, refused, timed out)",
  "Unit tests call transitions one at a time.",
  ["gem/control_state_machine.go","gem/handler.go"],
  [("control state machine","gem/control_state_machine.go"),("transition and event","gem/handler.go")],
  ["ControlState()","ControlStateChanged events","S1F16/S1F18 codes"])
p("G04", "Report definition, linking and enabling follow a sequential model and are atomic",
  "Every S2F33, S2F35 and S2F37 request is accepted or rejected with the acknowledge code given by a simple model of defined reports, links and enabled events, takes effect completely when accepted and not at all when rejected, and concurrent collection events observe either the configuration before or the one after. A variable or event the application registers while the equipment runs can be used from then on; a second registration of an identifier fails and changes nothing.",
  ["histories","inputs","schedules"],
  "every sequence of valid and invalid definitions, links, deletions and enablements, interleaved with triggers and connection loss",
  "Tests cover single happy-path sequences.",
  ["gem/collection_event_handlers.go","gem/collection_events.go"],
  [("S2F33/35/37 handlers","gem/collection_event_handlers.go")],
  ["DRACK/LRACK/ERACK codes","S6F11 and S6F16/S6F20 contents"])
p("G05", "An event report carries exactly the linked reports with current values",
  "When an enabled collection event is triggered while communicating, exactly one S6F11 is sent with that event's ID and, in link order, the linked reports with their variables' values in definition order, taken at the time of the trigger; a disabled or unknown event sends nothing, and a trigger of registered events is not refused while communication is established. On the host each received event report is passed once to the application with the same content.",
  ["histories","inputs","schedules"],
  "every configuration of reports and links, every sequence of triggers interleaved with reconfiguration and value changes, unknown or missing variables included",
  "Tests use one report with known variables.",
  ["gem/collection_event_handlers.go","gem/collection_events.go","gem/data_variables.go","gem/status_variables.go"],
  [("report construction","gem/collection_event_handlers.go")],
  ["S6F11 frames","host event callbacks"])
p("G06", "Equipment-constant updates are all or nothing and read back exactly",
  "An S2F15 request is either accepted and then every constant it names has the new value, or rejected with the proper code and no constant changes; S2F13 and S2F29 afterwards return exactly the current values and descriptions in the order asked, with an empty item in place of unknown IDs. The equipment's own changes of a constant are checked in the same way and read back, and a constant whose value cannot be read shows an empty item and does not keep the others from being updated or read. A constant registered while the equipment runs is known and listed from then on; a second registration of an identifier fails and changes nothing.",
  ["histories","inputs","schedules"],
  "every sequence of requests with valid, out-of-range, unknown and repeated constants, concurrent requests and local updates",
  "Tests update one constant at a time.",
  ["gem/equipment_constants.go","gem/status_equipment_handlers.go","gem/status_equipment_messages.go"],
  [("S2F15 handler","gem/status_equipment_handlers.go")],
  ["EAC codes","S2F14/S2F30 contents"])
p("G07", "Alarm reports and listings follow the set, enabled and defined alarms",
  "Raising a defined and enabled alarm sends exactly one S5F1 with the set bit, clearing it exactly one without; disabled alarms send nothing but still change state; S5F3 enables and disables as requested with the proper acknowledge and S5F5/S5F7 list the (enabled) alarms the model contains in order of their identifiers, with the codes and texts they were defined with; defining an alarm again leaves it enabled and cleared, and one that is not defined (yet) is refused in all of these and changes nothing. The host passes each alarm report to the application once and acknowledges it as asked.",
  ["histories","inputs","schedules"],
  "every sequence of raise/clear/enable/disable/list operations, any alarm ID in range, interleaved with concurrent callers and connection loss",
  "Tests cover registration and a single raise.",
  ["gem/alarm.go","gem/alarm_handlers.go","gem/alarm_client.go"],
  [("alarm manager","gem/alarm.go"),("S5 handlers","gem/alarm_handlers.go")],
  ["S5F1 frames","S5F4/S5F6/S5F8 contents","host alarm callback"])
p("G08", "An acknowledged process program is stored and retrieved unchanged",
  "A process program whose upload was acknowledged with code 0 is returned unchanged by a later request for it, on either side and across reconnections, until overwritten or deleted, and the equipment's own listing names exactly the stored programs; a refused upload leaves the store as it was and a request for an unknown program yields an explicit empty answer rather than silence.",
  ["histories","inputs","fault_sequences"],
  "every sequence of uploads, downloads and overwrites, body sizes through every length encoding, interleaved with connection loss",
  "Tests use short bodies.",
  ["gem/process_programs.go","gem/process_program_handlers.go"],
  [("S7F3/S7F5 handlers","gem/process_program_handlers.go")],
  ["S7F4/S7F6 contents","client API results"])
p("G09", "A remote command runs at most once and its result reaches the host",
  "Each S2F41 remote command received is passed to the application exactly once with the name and parameters sent, and the host's call returns the acknowledge code of that execution; commands are refused with the proper code while no handler is installed. A host call that fails has executed the command at most once; a host call reports only what the answer it got says - one without a readable acknowledge makes it fail - and one whose arguments no message can carry fails and sends nothing.",
  ["histories","inputs","schedules","fault_sequences"],
  "every sequence of commands and parameters, concurrent with other traffic, with delays and connection loss",
  "Tests send single commands over a clean link.",
  ["gem/remote_command.go","gem/handler.go"],
  [("S2F41 handler","gem/handler.go"),("client","gem/remote_command.go")],
  ["application callback invocations","HCACK","SendRemoteCommand result"])
p("G10", "Status requests are answered positionally with current values",
  "S1F3 and S1F11 are answered with one entry per requested ID in the order requested - an empty item for unknown IDs - or with all variables when none is named, each holding the variable's current value (its provider's while one is installed, else the stored one); a variable registered while the equipment runs is known and listed last from then on, and a second registration of an identifier fails and changes nothing; the host's client calls return exactly these values.",
  ["histories","inputs","schedules"],
  "every list of known, unknown, repeated IDs, concurrent with value changes",
  "Tests use known IDs.",
  ["gem/status_variables.go","gem/status_equipment_handlers.go","gem/status_equipment_client.go"],
  [("S1F3/S1F11 handlers","gem/status_equipment_handlers.go")],
  ["S1F4/S1F12 contents","client API results"])
p("G11", "Clock requests return the equipment time and setting is acknowledged truly",
  "S2F17 is always answered with the equipment's current time in a format the host can read back, and S2F31 sets the time the equipment then reports, to the host and to its own application, if and only if it was acknowledged with code 0; a malformed or refused time, or one that comes while no handler for it is installed, leaves the clock alone.",
  ["histories","inputs","schedules"],
  "every sequence of get and set with valid and invalid times, clock offsets and simulated time jumps",
  "Tests check formatting helpers.",
  ["gem/clock.go","gem/clock_handlers.go"],
  [("S2F17/S2F31 handlers","gem/clock_handlers.go")],
  ["S2F18/S2F32 contents"])
p("G12", "Every GEM primary is answered, whatever its body, and the handler survives",
  "Every GEM message the library handles that asks for a reply gets exactly one reply of the right function (or an abort/S9 error message), whatever the shape of its body and whatever callbacks are missing or fail, and afterwards the handler goes on serving; a well-formed primary is not refused, one that only the other role serves draws a stream 9 error and no reply, and S1F1 and S1F13 are answered with the equipment's model and revision (a host's with an empty list). Application callbacks - value providers, validators and updaters of constants, handlers of remote commands, clock and process programs - may themselves use the handler and its variables, register variables, trigger events and replace themselves without anything blocking.",
  ["inputs","histories","schedules"],
  "every handled stream/function with well-formed, oddly shaped and empty bodies, callbacks returning errors or unusual values",
  "Tests send well-shaped bodies only.",
  ["gem/handler.go","gem/status_equipment_handlers.go","gem/collection_event_handlers.go","gem/alarm_handlers.go","gem/process_program_handlers.go","gem/clock_handlers.go"],
  [("stream/function handlers","gem/*_handlers.go")],
  ["reply frames","panics"])
p("G13", "Callbacks see every event once; application handlers get their messages",
  "A callback added to one of the GEM handler's events (communication established, control state changed, S9 message received, remote command received, alarm received, event report received) runs exactly once for each occurrence while it is there, with what the event is about, and not after it has been removed; every S9 message and remote command received is such an occurrence. A callback may add and remove callbacks, register handlers and use the GEM handler without blocking. A stream/function handler the application registers gets, exactly once each, the messages of that stream and function that arrive while it is registered, in place of the library's, and the default handler those that nobody else serves; their replies are sent, and a message nobody serves is refused with an S9 message.",
  ["histories","schedules","fault_sequences"],
  "every interleaving of adding and removing callbacks and handlers (also from within callbacks) with events, requests, connection losses and lifecycle calls",
  "Tests register once and fire once.",
  ["common/events.go","gem/handler.go","hsms/protocol.go"],
  [("events","common/events.go"),("event delivery and registration","gem/handler.go"),("dispatch","hsms/protocol.go")],
  ["callback and handler invocations","reply and S9 frames"])

p("G14", "A host and an equipment of the library work together, once each",
  "With a host and an equipment of this library connected to each other, over any history of losses, resets, stalls, refused connections, disabled ends and crashes of either process: once the faults stop, communication is established again within a bounded time and stays established, every host call succeeds, a triggered event and a raised alarm arrive exactly once, and the equipment can be brought on-line. During the faults too, a remote command is executed at most once and exactly once if its call succeeded; status values are those of the time of the call; constants and process programs behave as one register each, reset only by a crash of the equipment; no event or alarm report arrives twice or was never sent, and alarm reports keep their order; every host call ends.",
  ["fault_sequences","schedules","crash_points","histories"],
  "every sequence of faults at every instant under every mix of host calls, events and alarms, in both active/passive roles",
  "Tests exchange single messages between in-memory ends without faults.",
  ["gem/handler.go","gem/status_equipment_client.go","gem/collection_event_handlers.go","gem/alarm.go","hsms/protocol.go"],
  [("communication","gem/handler.go"),("host calls","gem/status_equipment_client.go"),("events","gem/collection_event_handlers.go"),("alarms","gem/alarm.go"),("connection","hsms/protocol.go")],
  ["host API results","host events","equipment callbacks"])

# ---------------------------------------------------------------- link layer
p("L01", "Closing a session runs each close callback exactly once and never deadlocks",
  "However many callers close a session at the same time, and however registration and removal of close callbacks race with it, the session and its codec are closed once, exactly one Close reports success, every close callback that is registered and not removed is invoked exactly once, in the order of registration (right away if the session is already closed), a removal takes out one registration (the earliest of that handler and key), a callback may itself use the session, and no combination of session close, channel and manager operations deadlocks.",
  ["schedules"],
  "every interleaving of Close, callback registration/removal, channel insert/remove/close, manager disposal",
  "Lock-order inversions and registration races need chosen interleavings.",
  ["session.go","channel.go","manager.go"],
  [("close flag and callback list","session.go"),("keyed channel","channel.go"),("session manager","manager.go")],
  ["callback invocations","deadlock detection"])
p("L02", "A channel contains exactly its live sessions",
  "A keyed channel holds exactly those sessions that were put under a key, were not replaced or removed, and are not closed; closing a session removes that session (in due course) and no other, and lookups, counts, iterations, removals and Close return what some sequential order of the operations allows.",
  ["schedules","histories"],
  "every interleaving of put/get/remove/fetch/close with session closes",
  "Needs concurrent operations in chosen orders.",
  ["channel.go","session.go"],
  [("keyed map with close callbacks","channel.go")],
  ["Get/Len/Fetch results"])
p("L03", "Session sends keep order and are all sent unless the session is closed",
  "Messages accepted by a session's send call are transmitted in the order of the calls, each exactly once and whole, and all of them as long as the session stays open; after the session is closed no message is accepted. With a send queue the call never waits: when the queue is full (and only then) it reports that and the session is closed. A failed send or receive closes the session, and no task of the session outlives it.",
  ["schedules","fault_sequences"],
  "every interleaving of senders, slow or failing peers, closes, queue sizes",
  "Tests use a fast echo peer.",
  ["session.go"],
  [("send channel and loop","session.go")],
  ["bytes on the wire","Send results"])
p("L04", "Stopping a server closes every session and ends every task",
  "Stopping a server closes its listener and every accepted session, including one whose acceptance is in progress, makes Serve return, lets every handler see its session closed, and leaves no task, connection or registered session behind. Until then every connection made to it is served, and temporary accept errors never end the server. A connection whose codec cannot be made is closed, on either side.",
  ["schedules","fault_sequences"],
  "every interleaving of Stop with accepts, handlers and session closes; temporary accept failures",
  "Tests stop a quiescent server.",
  ["server.go","manager.go","api.go"],
  [("Serve/Stop","server.go"),("Dispose","manager.go"),("accept back-off","api.go")],
  ["return of Serve/Stop","live sessions and tasks"])
p("L05", "Stream codecs deliver exactly the messages sent under any segmentation",
  "For the fixed-length-prefix, byte, JSON and buffered codecs and their combinations, the receiver obtains exactly the sequence of messages the sender wrote, however the transport splits or delays the bytes; an oversized or truncated message is reported as an error and never delivered or sent as a shorter or merged one, malformed input never crashes the process, and a codec failure on one session affects no other.",
  ["inputs","fault_sequences","schedules"],
  "every segmentation, short read, truncation point and size limit, several sessions at once",
  "Tests encode and decode through an in-memory buffer in one piece.",
  ["codec/fixlen.go","codec/json.go","codec/bufio.go","codec/byte.go"],
  [("length head handling","codec/fixlen.go"),("buffering","codec/bufio.go")],
  ["messages received"])

p("L06", "A queue gives each item to one getter, in order, and never while it waits",
  "Each item put in the library's queue is got by exactly one getter, in the order of the puts; a getter gets an item as soon as the queue holds one for it, however many puts and gets meet, and gives up with an error at its timeout (at once if that is zero or less), neither before nor later, and only if the queue was empty.",
  ["schedules","histories"],
  "every interleaving of puts and gets, puts around the end of a wait",
  "Lost wake-ups need a put at the very moment at which two getters begin to wait.",
  ["utils/queue.go"],
  [("queue and its notification","utils/queue.go")],
  ["results and times of the calls"])

# ---------------------------------------------------------------- pure parts (not applicable to this technique)
p("N01", "SECS-II items and messages survive encoding and decoding",
  "Every SECS-II message that can be built encodes to bytes that decode to an equal message, and every byte string is either decoded completely or rejected.",
  ["inputs"], "every item tree and every byte string",
  "A finite set of literals is tested.",
  ["lib-secs2-hsms-go/pkg/ast/hsms.go","lib-secs2-hsms-go/pkg/parser/hsms/parser.go"],
  [("encoder/decoder","lib-secs2-hsms-go/pkg")])
p("N02", "SML text parses to the message it denotes and prints back",
  "Printing a message as SML and parsing the text yields an equal message; malformed SML is reported as an error with its position and never misread.",
  ["inputs"], "every message and every text",
  "A finite set of literals is tested.",
  ["lib-secs2-hsms-go/pkg/parser/sml/parser.go","lib-secs2-hsms-go/pkg/parser/sml/lexer.go"],
  [("lexer/parser","lib-secs2-hsms-go/pkg/parser/sml")])
p("N03", "Filling variables substitutes exactly the named placeholders",
  "Filling in the variables of a message template replaces exactly the named placeholders by the given values, expands repetition markers as documented, and leaves the template unchanged.",
  ["inputs"], "every template and substitution",
  "A finite set of literals is tested.",
  ["lib-secs2-hsms-go/pkg/ast/list.go","lib-secs2-hsms-go/pkg/ast/hsms.go"],
  [("FillVariables","lib-secs2-hsms-go/pkg/ast")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
