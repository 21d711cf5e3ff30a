From e13bbc9a0462c90478444268e617e7a70da08e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:33 +0000
Subject: [PATCH 01/15] fix: do not dereference the source address of a failed
 read

ReadFromUDP returns a nil address together with an error, so any transient
socket error (for example ECONNREFUSED after an ICMP port unreachable) made
the reader panic and took the whole process down.
---
 node.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/node.go b/node.go
index 6766063..143f3b6 100644
--- a/node.go
+++ b/node.go
@@ -218,18 +218,19 @@ func (n *Node) recvLoop() {
 				return
 			}
 
-			if n.localAddr.IP.Equal(from.IP) {
-				// this was sent by me, so we ignore it
-				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
-				continue
-			}
-
 			if err != nil {
 				if err == io.EOF {
 					return
 				}
 
-				n.log.With(Fields{"src": from.String(), "bytes": num}).Errorf("failed to read from socket: %v", err)
+				// there is no source address when the read failed
+				n.log.With(Fields{"bytes": num}).Errorf("failed to read from socket: %v", err)
+				continue
+			}
+
+			if n.localAddr.IP.Equal(from.IP) {
+				// this was sent by me, so we ignore it
+				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
 				continue
 			}
 
-- 
2.43.0


From cd5e06125a965bc41f5e48e850d38ba988da7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:34 +0000
Subject: [PATCH 02/15] fix: never send ArtDmx sequence number 0

The sequence counter wrapped from 255 to 0. Sequence 0 is reserved: it tells
the receiver that the sender does not use sequence numbers.
---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index b51f94c..f91a57a 100644
--- a/controller.go
+++ b/controller.go
@@ -67,6 +67,10 @@ func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {
 	}
 
 	cn.Sequence++
+	if cn.Sequence == 0 {
+		// 0 tells the node to disable resequencing, so skip it on wrap around
+		cn.Sequence = 1
+	}
 	p := &packet.ArtDMXPacket{
 		Sequence: cn.Sequence,
 		SubUni:   address.SubUni,
-- 
2.43.0


From bb9baa5fc97fc6ca25003a7563b0100cc4accb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:34 +0000
Subject: [PATCH 03/15] fix: put the sub-net of an ArtPollReply into the high
 nibble of the address

SubSwitch carries bits 7-4 of the port address in its low nibble, but it was
combined with SwIn/SwOut without shifting. Devices on a sub-net other than 0
were controlled on wrong universes, and different universes collided.
---
 config.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index c9bcb3e..e1e1008 100644
--- a/config.go
+++ b/config.go
@@ -77,7 +77,7 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		Status1:     c.Status1,
 		Status2:     c.Status2,
 		NetSwitch:   c.BaseAddress.Net,
-		SubSwitch:   c.BaseAddress.SubUni,
+		SubSwitch:   c.BaseAddress.SubUni >> 4,
 		NumPorts:    c.NumberOfPorts(),
 		PortTypes:   c.PortTypes(),
 	}
@@ -171,7 +171,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 		Status2:      p.Status2,
 		BaseAddress: Address{
 			Net:    p.NetSwitch,
-			SubUni: p.SubSwitch,
+			SubUni: p.SubSwitch << 4,
 		},
 	}
 
@@ -180,7 +180,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodOutput[i],
@@ -190,7 +190,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodInput[i],
-- 
2.43.0


From 271bd11f4856f1bf656c37d811a1960150e6d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:35 +0000
Subject: [PATCH 04/15] fix: announce the configured port addresses and port
 status

The ArtPollReply of a node carried the number and type of its ports but left
SwIn, SwOut, GoodInput and GoodOutput zero, so every port was announced as
universe 0 of the sub-net and data for the configured universes never arrived.
---
 config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/config.go b/config.go
index e1e1008..daf188a 100644
--- a/config.go
+++ b/config.go
@@ -82,6 +82,15 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		PortTypes:   c.PortTypes(),
 	}
 
+	for i := 0; i < len(c.InputPorts) && i < 4; i++ {
+		p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f
+		p.GoodInput[i] = c.InputPorts[i].Status
+	}
+	for i := 0; i < len(c.OutputPorts) && i < 4; i++ {
+		p.SwOut[i] = c.OutputPorts[i].Address.SubUni & 0x0f
+		p.GoodOutput[i] = c.OutputPorts[i].Status
+	}
+
 	copy(p.IPAddress[0:4], c.IP.To4())
 	copy(p.ESTAmanufacturer[0:2], c.Manufacturer)
 	copy(p.ShortName[0:18], c.Name)
-- 
2.43.0


From e4521670593f9ebe37c3178f80e7266362958ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:35 +0000
Subject: [PATCH 05/15] fix: apply BroadcastAddr to the poll replies of a
 controller

Only the ArtPoll packets used the configured address; the controller's own
ArtPollReply packets still went to the default broadcast address.
---
 options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options.go b/options.go
index decc5ab..3b5b8f6 100644
--- a/options.go
+++ b/options.go
@@ -26,7 +26,7 @@ func MaxFPS(fps int) Option {
 func BroadcastAddr(addr net.UDPAddr) Option {
 	return func(c *Controller) error {
 		c.broadcastAddr = addr
-		return nil
+		return NodeBroadcastAddress(addr)(c.cNode)
 	}
 }
 
-- 
2.43.0


From c9584831cd22d1ed40e18357dfdb231678e7a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:36 +0000
Subject: [PATCH 06/15] fix: accept data for an output a known node announces
 later on

When a known node re-announced itself with a new output address, the buffer
for it was only created by the next update tick. Data submitted before that
was refused and lost although the universe was already listed.
---
 controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller.go b/controller.go
index f91a57a..38cebd5 100644
--- a/controller.go
+++ b/controller.go
@@ -316,6 +316,9 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
 				c.OutputAddress[port.Address] = c.Nodes[i]
+				if c.Nodes[i].DMXBuffer[port.Address] == nil {
+					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
 				c.InputAddress[port.Address] = c.Nodes[i]
-- 
2.43.0


From 0d2c4b334776effc0d9f74e129eac6bd7451b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:31 +0000
Subject: [PATCH 07/15] fix: do not block forever on internal channels while
 stopping

Every send to the send, receive, poll and poll reply channels blocked when the
other side had already stopped. Stop then left goroutines behind, and a
controller could keep its lock, so that SendDMXToAddress never returned.
---
 controller.go | 29 +++++++++++++++++------------
 node.go       | 36 +++++++++++++++++++++++++++++++-----
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/controller.go b/controller.go
index 38cebd5..280ff6c 100644
--- a/controller.go
+++ b/controller.go
@@ -167,22 +167,14 @@ func (c *Controller) pollLoop() {
 	}
 
 	// send ArtPollPacket
-	c.cNode.sendCh <- netPayload{
-		address: c.broadcastAddr,
-		data:    b,
-	}
-	c.cNode.pollCh <- packet.ArtPollPacket{}
+	c.sendPoll(b)
 
 	// loop until shutdown
 	for {
 		select {
 		case <-c.pollTicker.C:
 			// send ArtPollPacket
-			c.cNode.sendCh <- netPayload{
-				address: c.broadcastAddr,
-				data:    b,
-			}
-			c.cNode.pollCh <- packet.ArtPollPacket{}
+			c.sendPoll(b)
 
 		case <-c.gcTicker.C:
 			// clean up old nodes
@@ -213,6 +205,19 @@ func (c *Controller) pollLoop() {
 	}
 }
 
+// sendPoll sends an ArtPoll packet and answers it ourselves
+func (c *Controller) sendPoll(b []byte) {
+	c.cNode.send(netPayload{
+		address: c.broadcastAddr,
+		data:    b,
+	})
+
+	select {
+	case c.cNode.pollCh <- packet.ArtPollPacket{}:
+	case <-c.cNode.shutdownCh:
+	}
+}
+
 // SendDMXToAddress will set the DMXBuffer for a destination address
 // and update the node
 func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
@@ -251,10 +256,10 @@ func (c *Controller) dmxUpdateLoop() {
 		node.DMXBuffer[address].LastUpdate = now
 		node.DMXBuffer[address].Stale = false
 
-		c.cNode.sendCh <- netPayload{
+		c.cNode.send(netPayload{
 			address: node.UDPAddress,
 			data:    b,
-		}
+		})
 		return nil
 	}
 
diff --git a/node.go b/node.go
index 143f3b6..66ba822 100644
--- a/node.go
+++ b/node.go
@@ -165,10 +165,10 @@ func (n *Node) pollReplyLoop() {
 			// reply with pollReply
 			n.log.With(nil).Debug("sending ArtPollReply")
 
-			n.sendCh <- netPayload{
+			n.send(netPayload{
 				address: n.broadcastAddr,
 				data:    me,
-			}
+			})
 
 			// TODO: if we are asked to send changes regularly, set the Ticker here
 
@@ -178,6 +178,14 @@ func (n *Node) pollReplyLoop() {
 	}
 }
 
+// send queues a packet for the network, unless the node is stopped first
+func (n *Node) send(payload netPayload) {
+	select {
+	case n.sendCh <- payload:
+	case <-n.shutdownCh:
+	}
+}
+
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
 	// loop until shutdown
@@ -241,7 +249,11 @@ func (n *Node) recvLoop() {
 				data:    make([]byte, num),
 			}
 			copy(payload.data, b)
-			n.recvCh <- payload
+			select {
+			case n.recvCh <- payload:
+			case <-n.shutdownCh:
+				return
+			}
 		}
 	}()
 
@@ -289,7 +301,14 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
-	n.pollCh <- *poll
+	n.shutdownLock.Lock()
+	pollCh, shutdownCh := n.pollCh, n.shutdownCh
+	n.shutdownLock.Unlock()
+
+	select {
+	case pollCh <- *poll:
+	case <-shutdownCh:
+	}
 }
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
@@ -301,7 +320,14 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
-		n.pollReplyCh <- *pollReply
+		n.shutdownLock.Lock()
+		pollReplyCh, shutdownCh := n.pollReplyCh, n.shutdownCh
+		n.shutdownLock.Unlock()
+
+		select {
+		case pollReplyCh <- *pollReply:
+		case <-shutdownCh:
+		}
 	}
 }
 
-- 
2.43.0


From 2819f3bb676d54b1bab5699b298faf9981bf0eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:32 +0000
Subject: [PATCH 08/15] fix: make Start and Stop of a node repeatable

Stop panicked when it was called twice or before Start, and returned while the
routines of the node were still running; after a restart those picked up the
new socket and channels. A failed Start marked the node as running, and its
error was reported by later attempts.
---
 node.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/node.go b/node.go
index 66ba822..c0d1f7b 100644
--- a/node.go
+++ b/node.go
@@ -34,6 +34,11 @@ type Node struct {
 	shutdownErr  error
 	shutdownLock sync.Mutex
 
+	// lifecycleLock is held while the node is being started or stopped
+	lifecycleLock sync.Mutex
+	// loops counts the running routines of this node
+	loops sync.WaitGroup
+
 	// pollCh will receive ArtPoll packets
 	pollCh chan packet.ArtPollPacket
 	// pollCh will send ArtPollReply packets
@@ -94,16 +99,25 @@ func (n *Node) Connection() *net.UDPConn {
 }
 
 // Stop will stop all running routines and close the network connection
+// it does nothing if the node is not running
 func (n *Node) Stop() {
+	n.lifecycleLock.Lock()
+	defer n.lifecycleLock.Unlock()
+
+	if n.isShutdown() {
+		return
+	}
+
 	n.shutdownLock.Lock()
 	n.shutdown = true
 	n.shutdownLock.Unlock()
 	close(n.shutdownCh)
 	if n.conn != nil {
 		if err := n.conn.Close(); err != nil {
-			n.log.Printf("failed to close read socket: %v")
+			n.log.Printf("failed to close read socket: %v", err)
 		}
 	}
+	n.loops.Wait()
 }
 
 func (n *Node) isShutdown() bool {
@@ -114,26 +128,36 @@ func (n *Node) isShutdown() bool {
 
 // Start will start the controller
 func (n *Node) Start() error {
+	n.lifecycleLock.Lock()
+	defer n.lifecycleLock.Unlock()
+
+	if !n.isShutdown() {
+		return fmt.Errorf("node has already been started")
+	}
 	if err := n.Config.validate(); err != nil {
 		return err
 	}
 	n.log.With(Fields{"ip": n.Config.IP.String(), "type": n.Config.Type.String()}).Debug("node started")
 
-	n.sendCh = make(chan netPayload, 10)
-	n.recvCh = make(chan netPayload, 10)
-	n.pollCh = make(chan packet.ArtPollPacket, 10)
-	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
-	n.shutdownCh = make(chan struct{})
-	n.shutdown = false
-
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
 		n.shutdownErr = fmt.Errorf("error net.ListenPacket: %s", err)
 		n.log.With(Fields{"error": err}).Error("error net.ListenPacket")
 		return err
 	}
+
+	n.shutdownLock.Lock()
+	n.sendCh = make(chan netPayload, 10)
+	n.recvCh = make(chan netPayload, 10)
+	n.pollCh = make(chan packet.ArtPollPacket, 10)
+	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
+	n.shutdownCh = make(chan struct{})
+	n.shutdown = false
+	n.shutdownErr = nil
 	n.conn = c.(*net.UDPConn)
+	n.shutdownLock.Unlock()
 
+	n.loops.Add(4)
 	go n.pollReplyLoop()
 	go n.recvLoop()
 	go n.sendLoop()
@@ -144,6 +168,8 @@ func (n *Node) Start() error {
 // pollReplyLoop loops to reply to ArtPoll packets
 // when a controller asks for continuous updates, we do that using a ticker
 func (n *Node) pollReplyLoop() {
+	defer n.loops.Done()
+
 	var timer time.Ticker
 
 	// create an ArtPollReply packet to send out in response to an ArtPoll packet
@@ -188,6 +214,8 @@ func (n *Node) send(payload netPayload) {
 
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
+	defer n.loops.Done()
+
 	// loop until shutdown
 	for {
 		select {
@@ -216,9 +244,13 @@ func (n *Node) sendLoop() {
 // due to the nature of broadcasting, we see our own sent
 // packets to, but we ignore them
 func (n *Node) recvLoop() {
+	defer n.loops.Done()
+
 	// start a routine that will read data from n.conn
 	// and (if not shutdown), send to the recvCh
 	go func() {
+		defer n.loops.Done()
+
 		b := make([]byte, 4096)
 		for {
 			num, from, err := n.conn.ReadFromUDP(b)
-- 
2.43.0


From fefeb979c2ce8cc33a6b773c1017d58b9f4187b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:33 +0000
Subject: [PATCH 09/15] fix: make Start and Stop of a controller repeatable

Stop panicked when it was called twice or before Start and did not wait for
the poll and update loops. A restarted controller still listed the nodes of
the previous run, but no longer their addresses, so their universes stayed
unreachable until they announced themselves with other data.
---
 controller.go | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/controller.go b/controller.go
index 280ff6c..09623e6 100644
--- a/controller.go
+++ b/controller.go
@@ -97,6 +97,11 @@ type Controller struct {
 
 	shutdownCh chan struct{}
 
+	// lifecycleLock is held while the controller is being started or stopped
+	lifecycleLock sync.Mutex
+	// loops counts the running routines of this controller
+	loops sync.WaitGroup
+
 	maxFPS int
 	log    Logger
 
@@ -108,7 +113,7 @@ type Controller struct {
 func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controller {
 	c := &Controller{
 		cNode:         NewNode(name, code.StController, ip, log),
-		log:           log,
+		log:           log.With(Fields{"type": "Controller"}),
 		maxFPS:        1000,
 		broadcastAddr: defaultBroadcastAddr,
 	}
@@ -122,38 +127,52 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
-	c.OutputAddress = make(map[Address]*ControlledNode)
-	c.InputAddress = make(map[Address]*ControlledNode)
-	c.shutdownCh = make(chan struct{})
-	c.cNode.log = c.log.With(Fields{"type": "Node"})
-	c.log = c.log.With(Fields{"type": "Controller"})
+	c.lifecycleLock.Lock()
+	defer c.lifecycleLock.Unlock()
+
 	if err := c.cNode.Start(); err != nil {
 		return fmt.Errorf("failed to start controller node: %v", err)
 	}
 
+	c.nodeLock.Lock()
+	c.Nodes = nil
+	c.OutputAddress = make(map[Address]*ControlledNode)
+	c.InputAddress = make(map[Address]*ControlledNode)
+	c.nodeLock.Unlock()
+	c.shutdownCh = make(chan struct{})
+
 	c.pollTicker = time.NewTicker(pollInterval)
 	c.gcTicker = time.NewTicker(pollInterval)
 
+	c.loops.Add(2)
 	go c.pollLoop()
 	go c.dmxUpdateLoop()
 	return c.cNode.shutdownErr
 }
 
 // Stop will stop this controller
+// it does nothing if the controller is not running
 func (c *Controller) Stop() {
+	c.lifecycleLock.Lock()
+	defer c.lifecycleLock.Unlock()
+
+	if c.shutdownCh == nil {
+		return
+	}
+
 	c.pollTicker.Stop()
 	c.gcTicker.Stop()
 	c.cNode.Stop()
 
-	select {
-	case <-c.cNode.shutdownCh:
-	}
-
 	close(c.shutdownCh)
+	c.loops.Wait()
+	c.shutdownCh = nil
 }
 
 // pollLoop will routinely poll for new nodes
 func (c *Controller) pollLoop() {
+	defer c.loops.Done()
+
 	artPoll := &packet.ArtPollPacket{
 		TalkToMe: new(code.TalkToMe).WithReplyOnChange(true),
 		Priority: code.DpAll,
@@ -242,6 +261,8 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
+	defer c.loops.Done()
+
 	fpsInterval := time.Duration(c.maxFPS)
 	ticker := time.NewTicker(time.Second / fpsInterval)
 
-- 
2.43.0


From 70db295b1d66435e1eca72f71986af08c8e8320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:33 +0000
Subject: [PATCH 10/15] fix: protect the callback table of a node

A packet that is still being handled when the node is stopped looked up its
callback without any synchronisation with RegisterCallback and
DeregisterCallback, which are allowed again after Stop.
---
 node.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index c0d1f7b..ccd3a3e 100644
--- a/node.go
+++ b/node.go
@@ -317,7 +317,9 @@ func (n *Node) recvLoop() {
 
 // handlePacket contains the logic for dealing with incoming packets
 func (n *Node) handlePacket(p packet.ArtNetPacket) {
+	n.shutdownLock.Lock()
 	callback, ok := n.callbacks[p.GetOpCode()]
+	n.shutdownLock.Unlock()
 	if !ok {
 		n.log.With(Fields{"packet": p}).Debugf("ignoring unhandled packet")
 		return
@@ -368,7 +370,10 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 // only register callbacks before the node has been started. Calling this
 // function multiple times replaces every previous callback.
 func (n *Node) RegisterCallback(opcode code.OpCode, callback NodeCallbackFn) {
-	if !n.isShutdown() {
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
+
+	if !n.shutdown {
 		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
 		return
 	}
@@ -380,7 +385,10 @@ func (n *Node) RegisterCallback(opcode code.OpCode, callback NodeCallbackFn) {
 // deregistration function can only deregister callbacks before the node
 // has been started.
 func (n *Node) DeregisterCallback(opcode code.OpCode) {
-	if !n.isShutdown() {
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
+
+	if !n.shutdown {
 		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
 		return
 	}
-- 
2.43.0


From 93f9369d43b797a48345ee7219ce9e47a2e4f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:34 +0000
Subject: [PATCH 11/15] fix: do not collect poll replies nobody reads

A Node of style StController that does not belong to a Controller queued every
ArtPollReply on a channel without a reader. Once the channel was full, each
further reply left a goroutine blocked until the node was stopped.
---
 controller.go | 2 ++
 node.go       | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 09623e6..55c2552 100644
--- a/controller.go
+++ b/controller.go
@@ -118,6 +118,8 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 		broadcastAddr: defaultBroadcastAddr,
 	}
 
+	c.cNode.controlled = true
+
 	for _, opt := range opts {
 		c.SetOption(opt)
 	}
diff --git a/node.go b/node.go
index ccd3a3e..556f604 100644
--- a/node.go
+++ b/node.go
@@ -43,6 +43,8 @@ type Node struct {
 	pollCh chan packet.ArtPollPacket
 	// pollCh will send ArtPollReply packets
 	pollReplyCh chan packet.ArtPollReplyPacket
+	// controlled is set if a Controller receives from pollReplyCh
+	controlled bool
 
 	log Logger
 
@@ -347,7 +349,7 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 	// only handle these packets if we are a controller
-	if n.Config.Type == code.StController {
+	if n.controlled {
 		pollReply, ok := p.(*packet.ArtPollReplyPacket)
 		if !ok {
 			n.log.With(Fields{"packet": p}).Debugf("unknown packet type")
-- 
2.43.0


From 512aa7397b483a66e56f524e836b9314e051cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:19 +0000
Subject: [PATCH 12/15] fix: marshal every packet type with its own opcode

The constructors promise a packet with the correct OpCode, but only ArtPoll,
ArtPollReply and ArtDmx got one; the others went out with opcode 0, or with
the opcode byte-swapped every second time the same packet was marshalled.
---
 packet/artaddress.go     | 1 +
 packet/artcommand.go     | 1 +
 packet/artdiagdata.go    | 1 +
 packet/artipprog.go      | 1 +
 packet/artipprogreply.go | 1 +
 packet/artnzs.go         | 1 +
 packet/artsync.go        | 1 +
 packet/arttimecode.go    | 1 +
 packet/arttrigger.go     | 1 +
 9 files changed, 9 insertions(+)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 7b831f9..056d3bc 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -99,5 +99,6 @@ func (p *ArtAddressPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtAddressPacket) finish() {
+	p.OpCode = code.OpAddress
 	p.Header.finish()
 }
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 49b5816..4a69ecb 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -83,6 +83,7 @@ func (p *ArtCommandPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtCommandPacket) finish() {
+	p.OpCode = code.OpCommand
 	p.Header.finish()
 	p.ESTAmanufacturer = [2]byte{0xff, 0xff}
 }
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 5997e43..1150bbe 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -70,5 +70,6 @@ func (p *ArtDiagDataPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtDiagDataPacket) finish() {
+	p.OpCode = code.OpDiagData
 	p.Header.finish()
 }
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 17916e9..5701d08 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -78,5 +78,6 @@ func (p *ArtIPProgPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgPacket) finish() {
+	p.OpCode = code.OpIPProg
 	p.Header.finish()
 }
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 7b08b8c..6fdb3c6 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -74,5 +74,6 @@ func (p *ArtIPProgReplyPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgReplyPacket) finish() {
+	p.OpCode = code.OpIPProgReply
 	p.Header.finish()
 }
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 8a568b4..fbae5c6 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -78,5 +78,6 @@ func (p *ArtNzsPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtNzsPacket) finish() {
+	p.OpCode = code.OpNzs
 	p.Header.finish()
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index 88ee754..ab6e4cd 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -61,5 +61,6 @@ func (p *ArtSyncPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtSyncPacket) finish() {
+	p.OpCode = code.OpSync
 	p.Header.finish()
 }
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 57dd624..054e6a7 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -75,5 +75,6 @@ func (p *ArtTimeCodePacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTimeCodePacket) finish() {
+	p.OpCode = code.OpTimeCode
 	p.Header.finish()
 }
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index 7c5c045..a966212 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -96,5 +96,6 @@ func (p *ArtTriggerPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTriggerPacket) finish() {
+	p.OpCode = code.OpTrigger
 	p.Header.finish()
 }
-- 
2.43.0


From ca10b9c6d3ff7902aba97a415ce177e2ada2f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:19 +0000
Subject: [PATCH 13/15] fix: marshal an ArtPollReply with the same port every
 time

Marshalling swapped the bytes of Port in place, so the second marshalling of
the same packet sent the port high byte first.
---
 packet/artpollreply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 220c25e..e01ce78 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -187,5 +187,5 @@ func (p *ArtPollReplyPacket) finish() {
 	// working packet we do it here "manually"
 	p.ID = ArtNet
 	p.OpCode = code.OpCode(swapUint16(uint16(code.OpPollReply)))
-	p.Port = swapUint16(p.Port)
+	p.Port = swapUint16(ArtNetPort)
 }
-- 
2.43.0


From 11e0be941314ce6efbfe32cfdf65865d220bd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:06 +0000
Subject: [PATCH 14/15] fix: refuse a MaxFPS the controller cannot run at

---
 options.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/options.go b/options.go
index 3b5b8f6..d3d2fbe 100644
--- a/options.go
+++ b/options.go
@@ -1,7 +1,9 @@
 package artnet
 
 import (
+	"fmt"
 	"net"
+	"time"
 
 	"github.com/jsimonetti/go-artnet/packet"
 )
@@ -15,8 +17,12 @@ func (c *Controller) SetOption(option Option) error {
 }
 
 // MaxFPS sets the maximum amount of updates sent out per second
+// an amount that is not at least 1 or leaves no time between updates is refused
 func MaxFPS(fps int) Option {
 	return func(c *Controller) error {
+		if fps < 1 || fps > int(time.Second) {
+			return fmt.Errorf("invalid maximum amount of updates per second: %d", fps)
+		}
 		c.maxFPS = fps
 		return nil
 	}
-- 
2.43.0


From a8507c9c29cb1851f2374fe2831bba553431744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:07 +0000
Subject: [PATCH 15/15] fix: keep the universes a node has taken over when
 another one gives them up

A node that is updated, deleted or expired removed its universes from the
address tables even if another node had announced them in the meantime, so
the data for a replacement of a failed node stopped when that was forgotten.
---
 controller.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/controller.go b/controller.go
index 55c2552..c6a91ee 100644
--- a/controller.go
+++ b/controller.go
@@ -334,10 +334,14 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			c.log.With(Fields{"node": cfg.Name, "ip": cfg.IP.String()}).Debug("updated node")
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			c.Nodes[i].Node = cfg
 			c.Nodes[i].LastSeen = time.Now()
@@ -393,10 +397,14 @@ func (c *Controller) deleteNode(node NodeConfig) error {
 			// node found, remove it from the list
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
 		}
@@ -423,10 +431,14 @@ start:
 
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			// remove node
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
-- 
2.43.0

