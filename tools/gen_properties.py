import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
C,N='controller.go','node.go'
T_none="The existing tests cover packet (un)marshalling, address arithmetic and configuration validation; "
p('C01','A universe shows the latest submitted data, whole and in order',
 "For every universe announced by a listed device, each DMX frame the controller sends to that device carries exactly one complete 512-byte buffer that was submitted for that universe (or all zeroes before any was), and once newer data has been submitted the universe never goes back to older data. What was submitted stays with the device for as long as it is listed: a universe it leaves out of one announcement and takes back in a later one shows its last data again. Data submitted for a listed universe is on the wire within two update periods (2/MaxFPS) of the call's return, or has been superseded by a newer submission, and the submitting call itself returns promptly.",
 ['schedules','histories','fault_sequences'],"all interleavings of concurrent submitters, the sending loop, discovery updates, expiry and polling; all sequences of submissions; slow and blocked sends",
 T_none+"no test starts a controller's loops, so no interleaving of a submission with the send loop is ever exercised.",
 [C],[('per-node buffer per output address, dirty flag, nodeLock','controller.go: SendDMXToAddress, dmxUpdateLoop, ControlledNode.setDMXBuffer')],['datagrams leaving the controller host','return of SendDMXToAddress'],
 [('ControlledNode.DMXBuffer','last data per output universe','controller.go')])
p('C02','Data only goes to the device that announces the universe',
 "A DMX frame for a universe is sent unicast, to the Art-Net port, only to the device whose latest announcement lists that universe as an output (if several devices announce it, to the one that announced it last), and never contains data submitted for another universe. Data submitted for a universe that no listed device announces is dropped: it is never sent, not even after a device announcing that universe appears. Polls go to the configured broadcast address and nowhere else.",
 ['schedules','histories','configurations'],"all device populations (nets, sub-nets, universes, up to four ports each way), re-announcements, moves of a universe between devices over time",
 T_none+"the routing table is only built by a running controller.",
 [C,'config.go'],[('OutputAddress table, address from the poll reply','controller.go: handlePollReply/updateNode, SendDMXToAddress, dmxUpdateLoop; config.go: ConfigFromArtPollReply')],['datagrams leaving the controller host'])
p('C03','Every listed universe is refreshed at least every 250 ms',
 "A universe that becomes known gets its first frame within one update period (1/MaxFPS), and as long as its device stays listed it gets another frame no later than 250 ms plus one update period after the previous one, whether or not anybody submits data, and regardless of what other universes or devices do.",
 ['schedules','histories','configurations'],"all MaxFPS values, device populations, submission patterns (idle, steady, bursts) and interleavings over long runs",
 T_none+"keep-alive needs running timers over seconds of time.",
 [C],[('forced refresh of buffers that have not been sent for 250 ms','controller.go: dmxUpdateLoop')],['datagrams leaving the controller host'])
p('C04','No universe is sent faster than MaxFPS',
 "However fast data is submitted, and by however many concurrent callers, the controller sends at most MaxFPS (default 1000) frames per second for any one universe of a device. A rate it cannot run at (below one, or more than one frame per nanosecond) is refused with an error and the rate set before stays in force.",
 ['schedules','histories','configurations'],"all submission rates and patterns, MaxFPS settings, re-announcements and polls in between",
 T_none+"rate limiting needs a running send loop under load.",
 [C,'options.go'],[('one pass over dirty buffers per MaxFPS tick','controller.go: dmxUpdateLoop; options.go: MaxFPS')],['datagrams leaving the controller host'])
p('C05','Sequence numbers per device run 1..255 without gap or zero',
 "The DMX frames a controller sends to one device carry sequence numbers 1, 2, 3, ... 255, 1, 2, ... in the order sent: never 0, never skipping and never repeating, until the device is dropped from the list or the controller is restarted, after which they may start again at 1.",
 ['schedules','histories'],"all interleavings and mixes of universes per device; sessions long enough to wrap many times; re-announcements in between",
 T_none+"no test sends more than one frame.",
 [C],[('per-node sequence counter','controller.go: dmxUpdateLoop, ControlledNode.Sequence')],['datagrams leaving the controller host'])
p('C06','The device list equals the latest valid announcements',
 "Whenever the controller is at rest, its list holds exactly one entry for every device (told apart by IP address) whose announcement (a valid poll reply of a node, or of another controller with outputs) was received within the last seven seconds, and no entry for anything that never announced itself. Each entry, and the input and output universe tables, show the content of the device's latest announcement: names, addresses, style, versions, status, MAC, bind data and every port with its universe, type and status. A universe that several devices announce is in the table for the one that announced it last, whatever the others do to it afterwards.",
 ['schedules','histories','inputs'],"all sequences and interleavings of announcements (new, repeated, changed, several devices at once), with loss, duplication, reordering and corruption on the network",
 T_none+"one test decodes a single poll reply; nothing exercises repeated, changed or concurrent announcements.",
 [C,'config.go','packet/artpollreply.go'],[('node table keyed by IP; update on change','controller.go: pollLoop, updateNode; config.go: ConfigFromArtPollReply')],['Controller.Nodes, OutputAddress, InputAddress at quiescent points'])
p('C07','Silent devices are dropped in time and never early',
 "A device is listed for at least seven seconds after its latest announcement and is gone from the list, from the universe tables and from the traffic no later than ten seconds after it (housekeeping every three seconds). A device that announces itself again is listed again, and the expiry of one device does not affect any other, in particular not one that has taken over its universes.",
 ['schedules','histories','fault_sequences'],"all patterns of device silence, return, message loss and partition relative to the housekeeping timer",
 T_none+"expiry needs seconds of running time.",
 [C],[('gcNode on a ticker, LastSeen','controller.go: pollLoop, gcNode')],['Controller.Nodes and tables at quiescent points','datagrams leaving the controller host'])
p('C08','A running controller polls at once and then every 3 seconds',
 "A started controller broadcasts an ArtPoll immediately and then one every three seconds until it is stopped, to the configured broadcast address, asking for replies on change; each of its polls is accompanied by exactly one announcement of its own. The cadence does not depend on load, on the devices or on what arrives from the network.",
 ['schedules','histories','configurations','fault_sequences'],"all interleavings with DMX load, floods of replies, send errors and restarts; all configured broadcast addresses",
 T_none+"polling needs a running controller.",
 [C],[('poll ticker; self poll reply','controller.go: pollLoop')],['datagrams leaving the controller host'])
p('C09','Every ArtPoll is answered exactly once with the configuration',
 "A running node (and a running controller) answers each valid ArtPoll from another host with exactly one ArtPollReply to the configured broadcast address, and sends no unsolicited replies. The reply carries the node's configuration: IP, names, style, OEM, versions, manufacturer, status, MAC, bind data, net and sub-net, and type, universe and status of up to four output and four input ports.",
 ['schedules','inputs','configurations','fault_sequences'],"all bursts and interleavings of polls from several controllers with other traffic; all node configurations with names that fit their fields",
 T_none+"one test covers the conversion of one configuration; nothing covers the exchange.",
 [N,'config.go','packet/artpollreply.go'],[('pollCh, pollReplyLoop','node.go: handlePacketPoll, pollReplyLoop'),('ArtPollReplyFromConfig','config.go')],['datagrams leaving the host'])
p('C10','Each valid packet reaches its callback exactly once, intact',
 "For every valid Art-Net datagram from another host whose opcode has a registered callback, that callback runs exactly once with a packet whose fields equal the datagram's content, and it is not run for anything else. A packet handed to a callback does not change afterwards, however much traffic follows.",
 ['schedules','inputs','fault_sequences'],"all packet types and contents, bursts and interleavings, duplicated and reordered datagrams, slow callbacks",
 T_none+"decoding is tested on one sample per packet type; delivery through a running node is not tested.",
 [N,'packet/packet.go'],[('recvLoop copies the datagram, handlePacket dispatches by opcode','node.go: recvLoop, handlePacket')],['callback invocations and their packets'])
p('C11','Callback changes count only while stopped; the last one wins',
 "Registering a callback for an opcode replaces the previous (or built-in) handler for that opcode only, and deregistering removes it, when done while the node is stopped; both take effect with the next Start and stay in force across restarts. The same calls on a running node change nothing.",
 ['histories','schedules'],"all sequences of register, deregister, start and stop, also concurrent with traffic",
 T_none+"no test registers a callback on a node that runs.",
 [N],[('RegisterCallback, DeregisterCallback check for a stopped node','node.go')],['callback invocations'])
p('C12','Malformed datagrams have no effect',
 "A datagram that is not a well-formed Art-Net packet (truncated, wrong identifier, opcode, protocol version or lengths, or random bytes) never crashes the process, is never delivered to a callback or answered, never changes the device list, and does not disturb the handling of any other packet.",
 ['inputs','schedules'],"all byte strings up to the largest datagram, mixed with valid traffic in every order; corruption and truncation on the network",
 T_none+"each decoder is tested with a handful of inputs; a running node or controller is never fed garbage.",
 [N,'packet/packet.go','packet/header.go'],[('packet.Unmarshal returns an error','packet/packet.go; node.go: recvLoop')],['process survival, callbacks, replies, device list'])
p('C13','Socket errors do not stop the service',
 "Errors reported by the socket while receiving (for example ICMP port unreachable) or sending (network unreachable, no buffer space), sends that block for a while, and receive-buffer overruns never crash or permanently disable a running node or controller: packets that do arrive are handled, and sending resumes as soon as sends succeed again.",
 ['fault_sequences','schedules'],"all sequences of receive and send errors and stalls at any point of the traffic",
 T_none+"tests never touch a socket.",
 [N],[('errors are logged and the loops go on','node.go: recvLoop, sendLoop')],['datagrams, callbacks, device list after the error'])
p('C14','Stop always terminates and leaves nothing running',
 "Stop returns promptly from any state (running, never started, already stopped, concurrently with other calls), under any traffic. When it has returned the port is released and no further datagram is sent by that session, and once the callbacks that were running have returned no goroutine of the library is left. A data submission that runs concurrently with or after Stop returns as well.",
 ['schedules','histories','fault_sequences'],"all points at which Stop can hit: during startup, with full queues, blocked sends, bursts of packets in handlers; repeated and concurrent Stop",
 T_none+"no test stops anything.",
 [N,C],[('shutdown channel, loops wait group, socket close','node.go: Stop; controller.go: Stop')],['return of the calls, datagrams, sockets, live goroutines'])
p('C15','Start works again after Stop or a failed Start',
 "Start on a stopped node or controller opens the socket and returns no error exactly when the port could be bound; a failed Start (port in use) reports the error and leaves the object stopped so that a later Start succeeds, and a second Start while running is refused without disturbing the running session. A configuration that is not valid (for example more than four ports, or a port whose input and output differ in type) is refused with an error, and with a valid one the next Start succeeds. Options changed while stopped are in force from the next Start on. After any number of stop and start cycles, or a crash of the process and a new start, all the other guarantees hold as in a first session.",
 ['histories','crash_points','schedules'],"all sequences of start, stop, failed start and crash at any point",
 T_none+"no test starts anything twice.",
 [N,C],[('fresh channels per session under lifecycle lock','node.go: Start, Stop; controller.go: Start, Stop')],['return values, sockets, and all other observations after a restart'])
p('C16','Datagrams from its own address are ignored',
 "A node or controller that hears its own broadcasts, or any other datagram whose source is its own IP address, ignores it: no callback, no reply, no device entry, no other change of behaviour.",
 ['inputs','schedules','configurations'],"all datagrams and all interleavings with foreign traffic, both representations of the configured IP",
 T_none+"needs a running node on a broadcast network.",
 [N],[('source address compared with the local address','node.go: recvLoop')],['callbacks, replies, device list'])
p('C17','The public API is free of data races',
 "Concurrent use of the documented operations (submitting data from several goroutines, start and stop, registering callbacks, incoming traffic of every kind) involves no unsynchronised conflicting memory access inside the library.",
 ['schedules','histories'],"all interleavings of API calls, packet handlers, loops and timers",
 T_none+"go test -race runs no two goroutines of this library.",
 [C,N],[('nodeLock, shutdownLock, lifecycle locks, channels','controller.go, node.go')],['race detector (happens-before) on every access of the library'])
p('C18','Controller and devices converge once faults stop',
 "Once the network is intact and both sides have been up for ten seconds, every device (real library nodes and third-party devices alike) is listed by every controller with the universes it has now, devices that are gone are not, and data submitted to the controller is what the device receives within the refresh interval, whatever was lost, duplicated, delayed, corrupted or partitioned before, however often either side crashed and whatever universes the devices had before (a universe that two devices announce at once is excepted).",
 ['fault_sequences','crash_points','schedules','histories'],"all fault histories before the quiet period",
 T_none+"no test runs a controller against a node.",
 [C,N],[('periodic polling, expiry and forced refresh make the protocol self-stabilising','controller.go, node.go')],['device list; data at the device'])
p('C19','Jumps of the wall clock have no influence',
 "Setting the system's wall clock forwards or backwards by any amount does not expire devices early or late and does not disturb polling, refresh or rate.",
 ['fault_sequences','schedules'],"all jump sizes and times",
 T_none+"the tests have no clock.",
 [C],[('monotonic time in LastSeen/LastUpdate comparisons and tickers','controller.go')],['device list, polls and frames around the jump'])
p('C20','Everything sent is well-formed Art-Net 4',
 "Every datagram a node or controller sends is a complete, well-formed Art-Net packet (identifier, little-endian opcode, protocol version 14, exact length, big-endian DMX length 512, reply port 0x1936) of a kind its role allows: nodes send only poll replies, controllers polls, replies and DMX.",
 ['schedules','configurations','histories'],"all configurations and histories",
 T_none+"marshalling is tested on single samples, not what actually leaves a socket.",
 [N,C,'packet/artdmx.go','packet/artpoll.go','packet/artpollreply.go'],[('MarshalBinary of the packet types','packet/')],['datagrams leaving the host'])
p('C21','Resources do not grow with traffic',
 "At rest a running node or controller has a bounded number of goroutines and keeps a bounded amount of state, independent of how many packets, polls, announcements, submissions or errors it has handled since it was started (at most one goroutine per currently blocked user callback, and goroutines and state proportional to the devices and universes it has to serve).",
 ['histories','schedules','inputs'],"all traffic histories",
 T_none+"leaks need long traffic on a running node.",
 [N,C],[('handlers end; internal channels always have a reader','node.go: handlePacket..., controller.go: pollLoop')],['live goroutines at quiescent points; size of the state reachable from the node or controller'])
p('C22','A blocked callback holds up nothing else',
 "While a user callback is blocked, the node goes on receiving: other packets, also of the same type, still reach their callbacks, polls are still answered and Stop still returns.",
 ['schedules','histories'],"any number of blocked callbacks, any later traffic",
 T_none+"no test has a slow callback.",
 [N],[('one goroutine per packet handler','node.go: recvLoop')],['callbacks, replies and return of Stop while a callback is blocked'])
p('C23','Packets one application sends with this library reach another unchanged',
 "An application that fills in any packet type of the library with field values within the protocol's ranges, marshals it and sends it to a node on another host gets it there unchanged: the bytes on the wire are the Art-Net encoding of those fields (identifier, the opcode of that packet type, version, lengths, padding), the same when the same object is marshalled or sent again or filled in anew, and the receiving node's callback for that opcode gets a packet with equal fields. Sending and receiving may run concurrently in many goroutines.",
 ['inputs','histories','schedules'],"all packet types and field values; all sequences of filling in, marshalling and sending the same or different packet objects, concurrent with other traffic, duplication and reordering on the network",
 "Tests marshal and unmarshal one sample per packet type, each object once, and send nothing.",
 ['packet/',N],[('MarshalBinary/UnmarshalBinary of the packet types','packet/'),('dispatch by opcode to the callback','node.go: recvLoop, handlePacket')],['datagrams leaving the host; callback invocations and their packets at the receiving node'])
p('C24','Bit-field accessors and names agree with the specification',
 "Setting one flag of a status, port or style code changes that flag only and the textual forms name the values of the Art-Net specification.",
 ['inputs'],"all values","Tests sample some.",
 ['packet/code/'],[('With... and accessor methods','packet/code/')],['return values'])
p('C25','Address arithmetic is consistent',
 "Net, sub-net and universe of an address and its 15-bit integer form convert into each other without loss for every valid address.",
 ['inputs'],"all 32768 addresses","Tests sample some.",
 ['config.go'],[('Address methods','config.go')],['return values'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
