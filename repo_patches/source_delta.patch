From 5ba9a97df2912563f0e841debbb65667eca59b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 01/35] fix: guard the I_T nexus table against concurrent
 logins, commands and listings

The iSCSI target kept a copy of the SCSI target, so its nexus mutex did not
exclude readers of the shared map, and command dispatch and target listing
iterated the map without any lock.
---
 pkg/port/iscsit/iscsit.go  |  4 ++--
 pkg/port/iscsit/session.go |  6 +++---
 pkg/scsi/scsi.go           | 20 +++++++++++++++++++-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/port/iscsit/iscsit.go b/pkg/port/iscsit/iscsit.go
index 9b0d445..e2963af 100644
--- a/pkg/port/iscsit/iscsit.go
+++ b/pkg/port/iscsit/iscsit.go
@@ -79,7 +79,7 @@ type iSCSITPGT struct {
 }
 
 type ISCSITarget struct {
-	api.SCSITarget
+	*api.SCSITarget
 	api.SCSITargetDriverCommon
 	// TPGT number is the key
 	TPGTs map[uint16]*iSCSITPGT
@@ -123,7 +123,7 @@ func (tgt *ISCSITarget) FindTPG(portal string) (uint16, error) {
 
 func newISCSITarget(target *api.SCSITarget) *ISCSITarget {
 	return &ISCSITarget{
-		SCSITarget: *target,
+		SCSITarget: target,
 		TPGTs:      make(map[uint16]*iSCSITPGT),
 		Sessions:   make(map[uint16]*ISCSISession),
 	}
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index cd0c072..72ee14d 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -333,7 +333,7 @@ func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
 	target.SessionsRWMutex.Lock()
 	defer target.SessionsRWMutex.Unlock()
 	delete(target.Sessions, sess.TSIH)
-	scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
+	scsi.RemoveITNexus(sess.Target.SCSITarget, sess.ITNexus)
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
@@ -396,7 +396,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 				conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
 			//register normal session
 			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
+			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
 
@@ -418,7 +418,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			}
 
 			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
+			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
 
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 18f196f..d5d6253 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -50,7 +50,23 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 	result := []api.SCSITarget{}
 	s.mutex.RLock()
 	for _, t := range s.Targets {
-		result = append(result, *t)
+		tgt := api.SCSITarget{
+			Name:             t.Name,
+			TID:              t.TID,
+			LID:              t.LID,
+			State:            t.State,
+			Devices:          t.Devices,
+			LUN0:             t.LUN0,
+			TargetPortGroups: t.TargetPortGroups,
+			SCSITargetDriver: t.SCSITargetDriver,
+			ITNexus:          make(map[uuid.UUID]*api.ITNexus),
+		}
+		t.ITNexusMutex.Lock()
+		for id, itn := range t.ITNexus {
+			tgt.ITNexus[id] = itn
+		}
+		t.ITNexusMutex.Unlock()
+		result = append(result, tgt)
 	}
 	s.mutex.RUnlock()
 	return result, nil
@@ -90,12 +106,14 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		return fmt.Errorf("Cannot find the target with ID(%d)", tid)
 	}
 	scmd.Target = target
+	target.ITNexusMutex.Lock()
 	for _, it := range target.ITNexus {
 		if uuid.Equal(it.ID, scmd.ITNexusID) {
 			itn = it
 			break
 		}
 	}
+	target.ITNexusMutex.Unlock()
 	scmd.ITNexus = itn
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
 	scmd.Device = target.Devices[lun]
-- 
2.43.0


From bc6fb01608db6651b45e465f39499ff9525dcf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 02/35] fix: number responses with the connection's own StatSN

Responses echoed the ExpStatSN of the request they answer, so pipelined
commands got duplicate or missing status numbers.
---
 pkg/port/iscsit/conn.go   | 7 +++++--
 pkg/port/iscsit/iscsid.go | 9 +++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 0b0c14a..52e4fc0 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -151,13 +151,12 @@ func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
-	conn.statSN += 1
 	if task == nil {
 		task = conn.rxTask
 	}
 	conn.resp = &ISCSICommand{
 		StartTime:       conn.req.StartTime,
-		StatSN:          conn.req.ExpStatSN,
+		StatSN:          conn.statSN,
 		TaskTag:         conn.req.TaskTag,
 		ExpectedDataLen: conn.req.ExpectedDataLen,
 	}
@@ -165,6 +164,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
 	}
+	// every response but an R2T carries status and takes a number of its own
+	if oc != OpReady {
+		conn.statSN += 1
+	}
 	switch oc {
 	case OpReady:
 		conn.resp.OpCode = OpReady
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0db6b01..0044abf 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -444,6 +444,9 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	var cmd = conn.req
 
+	if conn.state == CONN_STATE_FREE {
+		conn.statSN = cmd.ExpStatSN
+	}
 	conn.cid = cmd.ConnID
 	conn.loginParam.iniCSG = cmd.CSG
 	conn.loginParam.iniNSG = cmd.NSG
@@ -490,9 +493,10 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 	cmd := conn.req
 	conn.resp = &ISCSICommand{
 		OpCode:  OpLogoutResp,
-		StatSN:  cmd.ExpStatSN,
+		StatSN:  conn.statSN,
 		TaskTag: cmd.TaskTag,
 	}
+	conn.statSN += 1
 	if conn.session == nil {
 		conn.resp.ExpCmdSN = cmd.CmdSN
 		conn.resp.MaxCmdSN = cmd.CmdSN
@@ -550,11 +554,12 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		OpCode:   OpTextResp,
 		Final:    true,
 		NSG:      FullFeaturePhase,
-		StatSN:   cmd.ExpStatSN,
+		StatSN:   conn.statSN,
 		TaskTag:  cmd.TaskTag,
 		ExpCmdSN: cmd.CmdSN,
 		MaxCmdSN: cmd.CmdSN,
 	}
+	conn.statSN += 1
 	conn.resp.RawData = util.MarshalKVText(result)
 	return nil
 }
-- 
2.43.0


From 4bd3e61737108b5162b4fa55131e3aaddbb82ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 03/35] fix: process commands in CmdSN order exactly once

Only some commands took part in command ordering: writes needing R2T
advanced ExpCmdSN whatever their number, NOP-Out and logout never did, task
management used number 0, and a command arriving early blocked its
connection and was later executed without a response. Check the number of
every command when it is received, hold early ones until their turn, ignore
repeated and out-of-window ones, and report the session's numbers in every
response.
---
 pkg/port/iscsit/cmd.go     |  2 +
 pkg/port/iscsit/conn.go    |  2 -
 pkg/port/iscsit/iscsid.go  | 80 ++++++++++----------------------------
 pkg/port/iscsit/session.go | 63 ++++++++++++++++++++----------
 4 files changed, 65 insertions(+), 82 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index f592568..d1b759b 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -249,6 +249,8 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		}
 		fallthrough
 	case OpSCSITaskReq:
+		m.CmdSN = uint32(ParseUint(data[24:28]))
+		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 52e4fc0..ce826c9 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -207,12 +207,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 		conn.resp.Result = task.result
 	case OpLoginResp:
 		conn.resp.OpCode = OpLoginResp
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0044abf..d0c68c0 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -333,7 +333,13 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
 	}
-	for {
+	if conn.state == CONN_STATE_SCSI || conn.state == CONN_STATE_FULL {
+		if cmd = conn.session.nextHeldCommand(); cmd != nil {
+			conn.req = cmd
+			final = true
+		}
+	}
+	for !final {
 		switch conn.rxIOState {
 		case IOSTATE_RX_BHS:
 			log.Debug("rx handler: IOSTATE_RX_BHS")
@@ -407,6 +413,13 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 		}
 	}
 
+	if conn.state == CONN_STATE_SCSI || conn.state == CONN_STATE_FULL {
+		if !conn.session.admitCommand(conn.req) {
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return
+		}
+	}
 	if conn.state == CONN_STATE_SCSI {
 		s.scsiCommandHandler(conn)
 	} else {
@@ -559,6 +572,10 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		ExpCmdSN: cmd.CmdSN,
 		MaxCmdSN: cmd.CmdSN,
 	}
+	if conn.session != nil {
+		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
+		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
+	}
 	conn.statSN += 1
 	conn.resp.RawData = util.MarshalKVText(result)
 	return nil
@@ -761,7 +778,6 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
-				conn.session.ExpCmdSN += 1
 				task.state = taskPending
 				conn.session.PendingTasksMutex.Lock()
 				conn.session.PendingTasks.Push(task)
@@ -785,11 +801,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		}
 		task.offset = 0
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
-			if task.state == taskPending {
-				s.handler(DATAIN, conn)
-				err = nil
-			}
+		if err = s.iscsiExecTask(task); err != nil {
 			return
 		} else {
 			if scmd.Direction == api.SCSIDataRead && scmd.SenseBuffer == nil && req.ExpectedDataLen != 0 {
@@ -803,7 +815,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		// task management function
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: nil}
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
+		if err = s.iscsiExecTask(task); err != nil {
 			return
 		}
 	case OpSCSIOut:
@@ -871,58 +883,6 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 	return nil
 }
 
-func (s *ISCSITargetDriver) iscsiTaskQueueHandler(task *iscsiTask) error {
-	conn := task.conn
-	sess := conn.session
-	cmd := task.cmd
-	if cmd.Immediate {
-		return s.iscsiExecTask(task)
-	}
-	cmdsn := cmd.CmdSN
-	log.Debugf("CmdSN of command is %d", cmdsn)
-	if cmdsn == sess.ExpCmdSN {
-	retry:
-		cmdsn += 1
-		sess.ExpCmdSN = cmdsn
-		log.Debugf("session's ExpCmdSN is %d", cmdsn)
-
-		log.Debugf("process task(%d)", task.cmd.CmdSN)
-		if err := s.iscsiExecTask(task); err != nil {
-			log.Error(err)
-		}
-		sess.PendingTasksMutex.Lock()
-		if sess.PendingTasks.Len() == 0 {
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task = sess.PendingTasks.Pop()
-		cmd = task.cmd
-		if cmd.CmdSN != cmdsn {
-			sess.PendingTasks.Push(task)
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task.state = taskSCSI
-		sess.PendingTasksMutex.Unlock()
-		goto retry
-	} else {
-		if cmd.CmdSN < sess.ExpCmdSN {
-			err := fmt.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
-			log.Error(err)
-			return err
-		}
-		log.Debugf("add task(%d) into task queue", task.cmd.CmdSN)
-		// add this task into queue and set it as a pending task
-		sess.PendingTasksMutex.Lock()
-		task.state = taskPending
-		sess.PendingTasks.Push(task)
-		sess.PendingTasksMutex.Unlock()
-		return fmt.Errorf("pending")
-	}
-
-	return nil
-}
-
 func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 	cmd := task.cmd
 	switch cmd.OpCode {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 72ee14d..8da26bd 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -255,37 +255,22 @@ type ISCSISession struct {
 	PendingTasks       taskQueue
 	PendingTasksMutex  sync.RWMutex
 	MaxQueueCommand    uint32
-	SessionParam       ISCSISessionParamList
-	Info               string
-	Rdma               int
+	// commands received ahead of ExpCmdSN, CmdSN is the key
+	HeldCommands map[uint32]*ISCSICommand
+	SessionParam ISCSISessionParamList
+	Info         string
+	Rdma         int
 }
 
 type taskQueue []*iscsiTask
 
 func (tq taskQueue) Len() int { return len(tq) }
 
-func (tq taskQueue) Less(i, j int) bool {
-	// We want Pop to give us the highest, not lowest, priority so we use greater than here.
-	return tq[i].cmd.CmdSN > tq[j].cmd.CmdSN
-}
-
-func (tq taskQueue) Swap(i, j int) {
-	tq[i], tq[j] = tq[j], tq[i]
-}
-
 func (tq *taskQueue) Push(x *iscsiTask) {
 	item := x
 	*tq = append(*tq, item)
 }
 
-func (tq *taskQueue) Pop() *iscsiTask {
-	old := *tq
-	n := len(old)
-	item := old[n-1]
-	*tq = old[0 : n-1]
-	return item
-}
-
 func (tq taskQueue) GetByTag(tag uint32) *iscsiTask {
 	for _, t := range tq {
 		if t.tag == tag {
@@ -470,12 +455,50 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 		Connections:     map[uint16]*iscsiConnection{conn.cid: conn},
 		SessionParam:    conn.loginParam.sessionParam,
 		MaxQueueCommand: uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_QUEUE_CMD].Value),
+		HeldCommands:    map[uint32]*ISCSICommand{},
 		Rdma:            0,
 		ExpCmdSN:        conn.expCmdSN,
 	}
 	return sess, nil
 }
 
+// admitCommand tells whether a received command is to be processed now. A
+// command ahead of its turn is held until the gap before it is closed; one that
+// was received before or lies outside of the command window is ignored.
+func (sess *ISCSISession) admitCommand(cmd *ISCSICommand) bool {
+	switch cmd.OpCode {
+	case OpSCSICmd, OpSCSITaskReq, OpNoopOut, OpTextReq, OpLogoutReq:
+	default:
+		return true
+	}
+	if cmd.Immediate {
+		return true
+	}
+	// serial number arithmetic: a number already used is far ahead
+	ahead := cmd.CmdSN - sess.ExpCmdSN
+	if ahead == 0 {
+		sess.ExpCmdSN += 1
+		log.Debugf("session's ExpCmdSN is %d", sess.ExpCmdSN)
+		return true
+	}
+	if ahead > sess.MaxQueueCommand {
+		log.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
+		return false
+	}
+	if _, ok := sess.HeldCommands[cmd.CmdSN]; !ok {
+		log.Debugf("hold command(%d)", cmd.CmdSN)
+		sess.HeldCommands[cmd.CmdSN] = cmd
+	}
+	return false
+}
+
+// nextHeldCommand returns the held command whose turn it is, if there is one.
+func (sess *ISCSISession) nextHeldCommand() *ISCSICommand {
+	cmd := sess.HeldCommands[sess.ExpCmdSN]
+	delete(sess.HeldCommands, sess.ExpCmdSN)
+	return cmd
+}
+
 func (sess *ISCSISession) LookupConnection(cid uint16) *iscsiConnection {
 	sess.ConnectionsRWMutex.RLock()
 	defer sess.ConnectionsRWMutex.RUnlock()
-- 
2.43.0


From 196d5bd5de20de4b174e9f0cea4004dfa5763215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 04/35] fix: return the ping data in NOP-In

---
 pkg/port/iscsit/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index ce826c9..bee4e51 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -207,6 +207,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
+		if oc == OpNoopIn {
+			// return the ping data
+			conn.resp.RawData = conn.req.RawData[:conn.req.DataLen]
+		}
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
-- 
2.43.0


From 90f01d049a7b21baf958c06b03dea3ad54d3bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 05/35] fix: never leave a request hanging that cannot be
 served

Requests the full feature phase does not implement, errors while processing
a command and Data-Out for an unknown task stopped the connection's receive
loop without an answer and without closing the connection. Answer them with
Reject (which had no encoding), serve text requests in a normal session too,
ignore data of unknown tasks, close the connection after an error, and accept
nothing but login requests before the login is complete.
---
 pkg/port/iscsit/cmd.go    | 22 +++++++++++++++++++++-
 pkg/port/iscsit/conn.go   |  3 +++
 pkg/port/iscsit/iscsid.go | 37 +++++++++++++++++++++++++------------
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index d1b759b..7e894e6 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -80,6 +80,9 @@ var opCodeMap = map[OpCode]string{
 
 const DataPadding = 4
 
+// reason code of Reject, rfc7143 11.17.1
+const ISCSI_REJECT_CMD_NOT_SUPPORTED byte = 0x05
+
 type ISCSITaskManagementFunc struct {
 	Result            byte
 	TaskFunc          uint32
@@ -164,6 +167,8 @@ func (cmd *ISCSICommand) Bytes() []byte {
 		return cmd.scsiTMFRespBytes()
 	case OpReady:
 		return cmd.r2tRespBytes()
+	case OpReject:
+		return cmd.rejectBytes()
 	}
 	return nil
 }
@@ -222,7 +227,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		return nil, fmt.Errorf("garbled header")
 	}
 	// TODO: sync.Pool
-	m := &ISCSICommand{}
+	m := &ISCSICommand{RawHeader: data}
 	m.Immediate = 0x40&data[0] == 0x40
 	m.OpCode = OpCode(data[0] & ISCSI_OPCODE_MASK)
 	m.Final = 0x80&data[1] == 0x80
@@ -481,6 +486,21 @@ func (m *ISCSICommand) scsiTMFRespBytes() []byte {
 	return buf.Bytes()
 }
 
+func (m *ISCSICommand) rejectBytes() []byte {
+	// rfc7143 11.17
+	var buf = make([]byte, 48, 48+len(m.RawData))
+	buf[0] = byte(OpReject)
+	buf[1] = 0x80
+	buf[2] = m.Result
+	copy(buf[5:], util.MarshalUint64(uint64(len(m.RawData)))[5:])
+	copy(buf[16:], util.MarshalUint32(0xffffffff))
+	copy(buf[24:], util.MarshalUint32(m.StatSN))
+	copy(buf[28:], util.MarshalUint32(m.ExpCmdSN))
+	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
+	// the header of the rejected PDU
+	return append(buf, m.RawData...)
+}
+
 func (m *ISCSICommand) r2tRespBytes() []byte {
 	// rfc7143 11.8
 	buf := bytes.Buffer{}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index bee4e51..e84cf10 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -210,6 +210,9 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		if oc == OpNoopIn {
 			// return the ping data
 			conn.resp.RawData = conn.req.RawData[:conn.req.DataLen]
+		} else {
+			conn.resp.Result = ISCSI_REJECT_CMD_NOT_SUPPORTED
+			conn.resp.RawData = conn.req.RawHeader
 		}
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index d0c68c0..0623450 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -421,14 +421,23 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 		}
 	}
 	if conn.state == CONN_STATE_SCSI {
-		s.scsiCommandHandler(conn)
+		if err := s.scsiCommandHandler(conn); err != nil {
+			log.Warningf("set connection to close")
+			conn.state = CONN_STATE_CLOSE
+		}
+	} else if conn.state != CONN_STATE_FULL && conn.req.OpCode != OpLoginReq {
+		log.Errorf("%s before login", opCodeMap[conn.req.OpCode])
+		log.Warningf("set connection to close")
+		conn.state = CONN_STATE_CLOSE
 	} else {
 		conn.txIOState = IOSTATE_TX_BHS
 		conn.resp = &ISCSICommand{}
 		switch conn.req.OpCode {
 		case OpLoginReq:
 			log.Debug("OpLoginReq")
-			if err := s.iscsiExecLogin(conn); err != nil {
+			if conn.state == CONN_STATE_FULL {
+				iscsiExecReject(conn)
+			} else if err := s.iscsiExecLogin(conn); err != nil {
 				log.Error(err)
 				log.Warningf("set connection to close")
 				conn.state = CONN_STATE_CLOSE
@@ -824,9 +833,11 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
 		conn.session.PendingTasksMutex.RUnlock()
 		if task == nil {
-			err = fmt.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
-			log.Error(err)
-			return
+			// data of a task that has been aborted, for one
+			log.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
 		}
 		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 		task.offset += conn.req.DataLen
@@ -869,14 +880,16 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
 		iscsiExecLogout(conn)
-	case OpTextReq, OpSNACKReq:
-		err = fmt.Errorf("Cannot handle yet %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
+	case OpTextReq:
+		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
+		conn.txIOState = IOSTATE_TX_BHS
+		s.iscsiExecText(conn)
+	case OpSNACKReq:
+		log.Errorf("Cannot handle yet %s", opCodeMap[conn.req.OpCode])
+		iscsiExecReject(conn)
 	default:
-		err = fmt.Errorf("Unknown op %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
+		log.Errorf("Unknown op %s", opCodeMap[conn.req.OpCode])
+		iscsiExecReject(conn)
 	}
 	conn.rxIOState = IOSTATE_RX_BHS
 	s.handler(DATAIN|DATAOUT, conn)
-- 
2.43.0


From 68e55865ceeacad1701502b23e06de829760ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 06/35] fix: refuse Data-Out beyond or out of place in a
 write's buffer

Its buffer offset was ignored and data beyond the expected length panicked.
---
 pkg/port/iscsit/iscsid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0623450..0b6b099 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -839,6 +839,11 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			s.handler(DATAIN, conn)
 			return nil
 		}
+		if conn.req.BufferOffset != uint32(task.offset) || task.offset+conn.req.DataLen > len(task.scmd.OutSDBBuffer.Buffer) {
+			err = fmt.Errorf("unexpected data for task with tag[%v]: offset %d, length %d", conn.req.TaskTag, conn.req.BufferOffset, conn.req.DataLen)
+			log.Error(err)
+			return
+		}
 		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 		task.offset += conn.req.DataLen
 		task.r2tCount = task.r2tCount - conn.req.DataLen
-- 
2.43.0


From fd226d8593c0921cf9554888bebc110d5ed68435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 07/35] fix: consume additional header segments

They were left in the stream and parsed as the next PDU.
---
 pkg/port/iscsit/iscsid.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0b6b099..fdf041c 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -362,7 +362,7 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				return
 			}
 			conn.req = cmd
-			if length == BHS_SIZE && cmd.DataLen != 0 {
+			if length == BHS_SIZE && (cmd.DataLen != 0 || cmd.AHSLen != 0) {
 				conn.rxIOState = IOSTATE_RX_INIT_AHS
 				break
 			}
@@ -373,6 +373,14 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			final = true
 		case IOSTATE_RX_INIT_AHS:
 			conn.rxIOState = IOSTATE_RX_DATA
+			if cmd.AHSLen != 0 {
+				// no additional header segment is of use here
+				if _, err = conn.readData(make([]byte, cmd.AHSLen)); err != nil {
+					log.Error("read AHS failed: ", err)
+					conn.state = CONN_STATE_CLOSE
+					return
+				}
+			}
 			break
 			if hdigest != 0 {
 				conn.rxIOState = IOSTATE_RX_INIT_HDIGEST
-- 
2.43.0


From 8084c3a19a43161f7b57c2e598fc9fffac087ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 08/35] fix: take the whole LUN of a request

---
 pkg/port/iscsit/cmd.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 7e894e6..b124e83 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -222,6 +222,12 @@ func ParseUint(data []byte) uint64 {
 	return out
 }
 
+// parseLUN takes the first level of a LUN, peripheral device or flat space
+// addressing method, the way the SCSI layer numbers the units.
+func parseLUN(data []byte) [8]byte {
+	return [8]byte{data[1], data[0] &^ 0x40, data[2], data[3], data[4], data[5], data[6], data[7]}
+}
+
 func parseHeader(data []byte) (*ISCSICommand, error) {
 	if len(data) != BHS_SIZE {
 		return nil, fmt.Errorf("garbled header")
@@ -237,7 +243,6 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	m.StartTime = time.Now()
 	switch m.OpCode {
 	case OpSCSICmd:
-		m.LUN = [8]byte{data[9]}
 		m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.Read = data[1]&0x40 == 0x40
@@ -254,13 +259,14 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		}
 		fallthrough
 	case OpSCSITaskReq:
+		m.LUN = parseLUN(data[8:16])
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
 	case OpSCSIOut:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.DataSN = uint32(ParseUint(data[36:40]))
 		m.BufferOffset = uint32(ParseUint(data[40:44]))
-- 
2.43.0


From 47a8323beb73f1ff4d68af6b2d12c7ad97fd4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 09/35] fix: guard the LUN maps and the target list, refuse a
 mapping to an unknown device

---
 pkg/scsi/scsi.go      | 10 ++++------
 pkg/scsi/scsilumap.go | 29 ++++++++++++++++++++++++++---
 pkg/scsi/target.go    |  9 +++++++--
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index d5d6253..f621079 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -55,7 +55,7 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 			TID:              t.TID,
 			LID:              t.LID,
 			State:            t.State,
-			Devices:          t.Devices,
+			Devices:          copyDevices(t),
 			LUN0:             t.LUN0,
 			TargetPortGroups: t.TargetPortGroups,
 			SCSITargetDriver: t.SCSITargetDriver,
@@ -77,10 +77,8 @@ func (s *SCSITargetService) Resize(size uint64) error {
 	s.mutex.Lock()
 	//TODO for multiple LUNs
 	for _, t := range s.Targets {
-		if t.Devices != nil {
-			for i := range t.Devices {
-				t.Devices[i].Size = size
-			}
+		for _, lu := range copyDevices(t) {
+			lu.Size = size
 		}
 	}
 	s.mutex.Unlock()
@@ -116,7 +114,7 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 	target.ITNexusMutex.Unlock()
 	scmd.ITNexus = itn
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
-	scmd.Device = target.Devices[lun]
+	scmd.Device = lookupLU(target, lun)
 
 	log.Debugf("scsi opcode: 0x%x, LUN: %d", int(scmd.SCB[0]), binary.LittleEndian.Uint64(scmd.Lun[:]))
 
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a6fb823..558410f 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -50,6 +50,7 @@ type LUNMapping struct {
 	DeviceID   uint64
 }
 
+// mappingLUN is called with the mutex of the map held
 func mappingLUN(lm LUNMapping) {
 	device := globalSCSILUMap.AllDevices[lm.DeviceID]
 	lunMap := globalSCSILUMap.TargetsLUNMap[lm.TargetName]
@@ -78,6 +79,24 @@ func GetTargetLUNMap(tgtName string) api.LUNMap {
 	return lunMap
 }
 
+// lookupLU finds a logical unit of a target, the map may change under way.
+func lookupLU(target *api.SCSITarget, lun uint64) *api.SCSILu {
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
+	return target.Devices[lun]
+}
+
+// copyDevices returns the logical units a target has right now.
+func copyDevices(target *api.SCSITarget) api.LUNMap {
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
+	devices := make(api.LUNMap, len(target.Devices))
+	for lun, lu := range target.Devices {
+		devices[lun] = lu
+	}
+	return devices
+}
+
 func GetTargetBSMap(tgtName string) (api.RemoteBackingStore, error) {
 	globalSCSILUMap.mutex.RLock()
 	defer globalSCSILUMap.mutex.RUnlock()
@@ -115,6 +134,9 @@ func DelBackendStorage(deviceID uint64) {
 func AddLUNMapping(m LUNMapping) error {
 	globalSCSILUMap.mutex.Lock()
 	defer globalSCSILUMap.mutex.Unlock()
+	if _, ok := globalSCSILUMap.AllDevices[m.DeviceID]; !ok {
+		return fmt.Errorf("device %d does not exist", m.DeviceID)
+	}
 	mappingLUN(m)
 	// Init SCSISimpleReservationOperator
 	op := GetSCSIReservationOperator()
@@ -144,7 +166,9 @@ func InitSCSILUMap(config *config.Config) error {
 				return fmt.Errorf("LU Number must be a number")
 			}
 			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
-			AddLUNMapping(m)
+			if err := AddLUNMapping(m); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -168,11 +192,10 @@ func InitSCSILUMapEx(config *config.BackendStorage, tgtName string, lun uint64,
 	globalSCSILUMap.AllDevices[config.DeviceID] = lu
 	globalSCSILUMap.mutex.Unlock()
 
-	mappingLUN(LUNMapping{
+	return AddLUNMapping(LUNMapping{
 		DeviceID:   config.DeviceID,
 		LUN:        lun,
 		TargetName: tgtName,
 	},
 	)
-	return nil
 }
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 3f12696..6658eb5 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -38,10 +38,12 @@ func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*ap
 		ITNexus:          make(map[uuid.UUID]*api.ITNexus),
 	}
 	tpg := &api.TargetPortGroup{0, []*api.SCSITargetPort{}}
-	s.Targets = append(s.Targets, target)
 	target.Devices = GetTargetLUNMap(target.Name)
 	target.LUN0 = NewLUN0()
 	target.TargetPortGroups = append(target.TargetPortGroups, tpg)
+	s.mutex.Lock()
+	s.Targets = append(s.Targets, target)
+	s.mutex.Unlock()
 	return target, nil
 }
 
@@ -50,7 +52,10 @@ func (s *SCSITargetService) RereadTargetLUNMap() {
 	defer s.mutex.Unlock()
 
 	for _, tgt := range s.Targets {
-		tgt.Devices = GetTargetLUNMap(tgt.Name)
+		devices := GetTargetLUNMap(tgt.Name)
+		globalSCSILUMap.mutex.Lock()
+		tgt.Devices = devices
+		globalSCSILUMap.mutex.Unlock()
 	}
 }
 
-- 
2.43.0


From e6d1b4414e5d5184c0e334f9c4cedb5fded3d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 10/35] fix: report every logical unit once in REPORT LUNS

---
 pkg/scsi/spc.go | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6ed3ee4..6a1e0a9 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"sort"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -411,10 +412,10 @@ sense:
  */
 func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		remainLength     uint32
 		availLength      uint32 = 0
 		allocationLength uint32
 		buf              *bytes.Buffer = &bytes.Buffer{}
+		luns             []uint64
 	)
 	// Get Allocation Length
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[6:10])
@@ -423,42 +424,39 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	remainLength = allocationLength
-	if _, ok := cmd.Target.Devices[0]; !ok {
-		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
-	} else {
-		availLength = 8 * uint32(len(cmd.Target.Devices))
+	//For LUN0
+	luns = append(luns, 0)
+	for lun := range copyDevices(cmd.Target) {
+		if lun != 0 {
+			luns = append(luns, lun)
+		}
 	}
+	sort.Slice(luns, func(i, j int) bool { return luns[i] < luns[j] })
+	availLength = 8 * uint32(len(luns))
 
 	// LUN list length
 	buf.Write(util.MarshalUint32(availLength))
-	cmd.InSDBBuffer.Resid = allocationLength
 
 	// Skip through to byte 4, Reserved
 	for i := 0; i < 4; i++ {
 		buf.WriteByte(0x00)
 	}
 
-	//For LUN0
-	if _, ok := cmd.Target.Devices[0]; !ok {
-		buf.Write(util.MarshalUint64(0))
-		remainLength -= 8
-	}
-
-	for lun := range cmd.Target.Devices {
-		if remainLength > 0 {
-			if lun > 0xff {
-				lun = (0x01 << 30) | (0x3fff&lun)<<16
-			} else {
-				lun = (0x3fff & lun) << 16
-			}
-			lun = uint64(lun << 32)
-
-			buf.Write(util.MarshalUint64(lun))
-			remainLength -= 8
+	for _, lun := range luns {
+		if lun > 0xff {
+			lun = (0x01 << 30) | (0x3fff&lun)<<16
+		} else {
+			lun = (0x3fff & lun) << 16
 		}
+		lun = uint64(lun << 32)
+
+		buf.Write(util.MarshalUint64(lun))
 	}
 
+	cmd.InSDBBuffer.Resid = uint32(buf.Len())
+	if cmd.InSDBBuffer.Resid > allocationLength {
+		cmd.InSDBBuffer.Resid = allocationLength
+	}
 	copy(cmd.InSDBBuffer.Buffer, buf.Bytes())
 	return api.SAMStatGood
 sense:
-- 
2.43.0


From 3f7c4b73c977210195750e7f2e763b201f0d1067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 11/35] fix: reservations keep other initiators out and end
 with release, reset or the session

---
 pkg/port/iscsit/cmd.go     |  2 ++
 pkg/port/iscsit/session.go | 29 ++++++++++++++++++-
 pkg/scsi/sbc.go            |  8 +-----
 pkg/scsi/scsi.go           |  6 ++++
 pkg/scsi/spc.go            | 17 +++--------
 pkg/scsi/target.go         | 58 +++++++++++++++++++++++++++-----------
 6 files changed, 83 insertions(+), 37 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index b124e83..cc7e13b 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -102,6 +102,8 @@ type ISCSICommand struct {
 	ExpCmdSN, MaxCmdSN uint32
 	AHSLen             int
 	Resid              uint32
+	// aborted before its turn came
+	Aborted bool
 
 	// Connection ID.
 	ConnID uint16
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 8da26bd..1a98057 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -479,7 +479,7 @@ func (sess *ISCSISession) admitCommand(cmd *ISCSICommand) bool {
 	if ahead == 0 {
 		sess.ExpCmdSN += 1
 		log.Debugf("session's ExpCmdSN is %d", sess.ExpCmdSN)
-		return true
+		return !cmd.Aborted
 	}
 	if ahead > sess.MaxQueueCommand {
 		log.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
@@ -499,6 +499,33 @@ func (sess *ISCSISession) nextHeldCommand() *ISCSICommand {
 	return cmd
 }
 
+// abortTasks drops the tasks of this session that still wait for data or for
+// their turn and that match; it returns how many there were. No response is
+// sent for an aborted task.
+func (sess *ISCSISession) abortTasks(match func(cmd *ISCSICommand) bool) int {
+	count := 0
+	sess.PendingTasksMutex.Lock()
+	defer sess.PendingTasksMutex.Unlock()
+	pending := taskQueue{}
+	for _, task := range sess.PendingTasks {
+		if match(task.cmd) {
+			log.Debugf("abort the task[%v]", task.tag)
+			count++
+		} else {
+			pending.Push(task)
+		}
+	}
+	sess.PendingTasks = pending
+	for _, cmd := range sess.HeldCommands {
+		if cmd.OpCode == OpSCSICmd && !cmd.Aborted && match(cmd) {
+			log.Debugf("abort the held command(%d)", cmd.CmdSN)
+			cmd.Aborted = true
+			count++
+		}
+	}
+	return count
+}
+
 func (sess *ISCSISession) LookupConnection(cid uint16) *iscsiConnection {
 	sess.ConnectionsRWMutex.RLock()
 	defer sess.ConnectionsRWMutex.RUnlock()
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ec3a4a8..c67de57 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -20,7 +20,6 @@ package scsi
 import (
 	"encoding/binary"
 	"fmt"
-	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -268,10 +267,6 @@ func SBCFormatUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc = ASC_INVALID_FIELD_IN_CDB
 	)
 
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
 	if !cmd.Device.Attrs.Online {
 		key = NOT_READY
 		asc = ASC_MEDIUM_NOT_PRESENT
@@ -487,8 +482,7 @@ func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SBCRelease(host int, cmd *api.SCSICommand) api.SAMStat {
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
-	if err := deviceRelease(cmd.Target.TID, cmd.ITNexusID, lun, false); err != nil {
+	if err := deviceRelease(cmd.Device, cmd.ITNexusID, false); err != nil {
 		return api.SAMStatReservationConflict
 	}
 
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index f621079..d5f2f5d 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -128,6 +128,12 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		}
 	}
 
+	if reservationConflict(scmd) {
+		scmd.Result = api.SAMStatReservationConflict.Stat
+		log.Warnf("%v", api.SAMStatReservationConflict.Err)
+		return nil
+	}
+
 	result := scmd.Device.PerformCommand(tid, scmd)
 	if result != api.SAMStatGood {
 		scmd.Result = result.Stat
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6a1e0a9..eb19a2e 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -471,10 +471,6 @@ func SPCStartStop(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		pwrcnd, loej, start byte
 	)
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
 	if cmd.InSDBBuffer != nil {
 		cmd.InSDBBuffer.Resid = 0
 	}
@@ -515,11 +511,7 @@ func SPCStartStop(host int, cmd *api.SCSICommand) api.SAMStat {
  * 6.47 - TEST UNIT READY
  */
 func SPCTestUnit(host int, cmd *api.SCSICommand) api.SAMStat {
-	/*
-		if err := deviceReserve(cmd); err != nil {
-			return api.SAMStatReservationConflict
-		}
-	*/
+
 	if cmd.Device.Attrs.Online {
 		return api.SAMStatGood
 	}
@@ -533,11 +525,10 @@ func SPCTestUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
 	// PREVENT_MASK = 0x03
-	cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	if cmd.ITNexusLuInfo != nil {
+		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	}
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 6658eb5..b47756a 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -18,6 +18,7 @@ package scsi
 
 import (
 	"fmt"
+	"sync"
 	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
@@ -98,24 +99,26 @@ func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	target.ITNexusMutex.Lock()
 	defer target.ITNexusMutex.Unlock()
 	delete(target.ITNexus, itnexus.ID)
+	// a reservation does not outlive its I_T nexus
+	for _, lu := range copyDevices(target) {
+		deviceRelease(lu, itnexus.ID, false)
+	}
+	deviceRelease(target.LUN0, itnexus.ID, false)
 }
 
-func deviceReserve(cmd *api.SCSICommand) error {
-	var lu *api.SCSILu
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
+// reserveMutex guards the reservation holder of every logical unit
+var reserveMutex sync.Mutex
 
-	for tgtLUN, lunDev := range cmd.Target.Devices {
-		if tgtLUN == lun {
-			lu = lunDev
-			break
-		}
-	}
-	if lu == nil {
-		log.Errorf("invalid target and lun %d %d", cmd.Target.TID, lun)
-		return nil
-	}
+// deviceReserved tells whether another I_T nexus holds the reservation
+func deviceReserved(lu *api.SCSILu, itn uuid.UUID) bool {
+	return !uuid.Equal(lu.ReserveID, uuid.Nil) && !uuid.Equal(lu.ReserveID, itn)
+}
 
-	if !uuid.Equal(lu.ReserveID, uuid.Nil) && uuid.Equal(lu.ReserveID, cmd.ITNexusID) {
+func deviceReserve(cmd *api.SCSICommand) error {
+	lu := cmd.Device
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
+	if deviceReserved(lu, cmd.ITNexusID) {
 		log.Errorf("already reserved %d, %d", lu.ReserveID, cmd.ITNexusID)
 		return fmt.Errorf("already reserved")
 	}
@@ -123,7 +126,30 @@ func deviceReserve(cmd *api.SCSICommand) error {
 	return nil
 }
 
-func deviceRelease(tid int, itn uuid.UUID, lun uint64, force bool) error {
-	// TODO
+func deviceRelease(lu *api.SCSILu, itn uuid.UUID, force bool) error {
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
+	if force || uuid.Equal(lu.ReserveID, itn) {
+		lu.ReserveID = uuid.Nil
+	}
 	return nil
 }
+
+// reservationConflict tells whether the reservation of the unit by another I_T
+// nexus keeps the command out
+func reservationConflict(cmd *api.SCSICommand) bool {
+	switch api.SCSICommandType(cmd.SCB[0]) {
+	case api.INQUIRY, api.REQUEST_SENSE, api.REPORT_LUNS, api.RELEASE, api.READ_CAPACITY, api.SERVICE_ACTION_IN:
+		return false
+	}
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
+	return deviceReserved(cmd.Device, cmd.ITNexusID)
+}
+
+// ResetLU ends the reservation of a logical unit
+func (s *SCSITargetService) ResetLU(target *api.SCSITarget, lun [8]uint8) {
+	if lu := lookupLU(target, *(*uint64)(unsafe.Pointer(&lun))); lu != nil {
+		deviceRelease(lu, uuid.Nil, true)
+	}
+}
-- 
2.43.0


From 210b50d0ec4b4312394e8e2ac0d81a28554e4c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 12/35] fix: abort tasks by LUN, before their turn too, without
 a SCSI response

---
 pkg/port/iscsit/iscsid.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index fdf041c..e77ec87 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -928,26 +928,18 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 		sess := task.conn.session
 		switch cmd.TaskFunc {
 		case ISCSI_TM_FUNC_ABORT_TASK:
-			sess.PendingTasksMutex.Lock()
-			stask := sess.PendingTasks.RemoveByTag(cmd.ReferencedTaskTag)
-			sess.PendingTasksMutex.Unlock()
-			if stask == nil {
+			if sess.abortTasks(func(c *ISCSICommand) bool { return c.TaskTag == cmd.ReferencedTaskTag }) == 0 {
 				task.result = ISCSI_TMF_RSP_NO_TASK
 			} else {
-				// abort this task
-				log.Debugf("abort the task[%v]", stask.tag)
-				if stask.scmd == nil {
-					stask.scmd = &api.SCSICommand{Result: api.SAM_STAT_TASK_ABORTED}
-				}
-				stask.conn = task.conn
-				log.Debugf("stask.conn: %#v", stask.conn)
-				stask.conn.buildRespPackage(OpSCSIResp, stask)
-				stask.conn.rxTask = nil
-				s.handler(DATAOUT, stask.conn)
 				task.result = ISCSI_TMF_RSP_COMPLETE
 			}
 		case ISCSI_TM_FUNC_ABORT_TASK_SET:
+			sess.abortTasks(func(c *ISCSICommand) bool { return c.LUN == cmd.LUN })
+			task.result = ISCSI_TMF_RSP_COMPLETE
 		case ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+			sess.abortTasks(func(c *ISCSICommand) bool { return c.LUN == cmd.LUN })
+			s.SCSI.ResetLU(sess.Target.SCSITarget, cmd.LUN)
+			task.result = ISCSI_TMF_RSP_COMPLETE
 		case ISCSI_TM_FUNC_CLEAR_ACA:
 			fallthrough
 		case ISCSI_TM_FUNC_CLEAR_TASK_SET:
-- 
2.43.0


From f9723369fecd828a5949426a9d273cb9db38d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 13/35] fix: allocation lengths, bounds and lengths returned by
 the commands that return parameter data

---
 pkg/scsi/sbc.go | 47 +++++++++++++++++-------------------
 pkg/scsi/spc.go | 64 +++++++++++++++++++------------------------------
 2 files changed, 46 insertions(+), 65 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index c67de57..351152b 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -241,10 +241,12 @@ func SBCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		deviceSpecific |= 0x80
 	}
 
+	offset := 3
 	if cmd.SCB[0] == 0x1a {
-		cmd.InSDBBuffer.Buffer[2] = deviceSpecific
-	} else {
-		cmd.InSDBBuffer.Buffer[3] = deviceSpecific
+		offset = 2
+	}
+	if offset < len(cmd.InSDBBuffer.Buffer) && uint32(offset) < cmd.InSDBBuffer.Resid {
+		cmd.InSDBBuffer.Buffer[offset] = deviceSpecific
 	}
 
 	return api.SAMStatGood
@@ -507,6 +509,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
 		size   = cmd.Device.Size >> bshift
+		data   []byte
 	)
 
 	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
@@ -520,21 +523,16 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if cmd.InSDBBuffer.Length < 8 {
-		goto overflow
-	}
-
 	// data[0] = (size >> 32) ? __cpu_to_be32(0xffffffff) : __cpu_to_be32(size - 1);
 	if size>>32 != 0 {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(0xffffffff)))
+		data = util.MarshalUint32(uint32(0xffffffff))
 	} else {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(size-1)))
+		data = util.MarshalUint32(uint32(size - 1))
 	}
 
 	// data[1] = __cpu_to_be32(1U << bshift);
-	copy(cmd.InSDBBuffer.Buffer[4:], util.MarshalUint32(uint32(1<<bshift)))
-overflow:
-	cmd.InSDBBuffer.Resid = 8
+	data = append(data, util.MarshalUint32(uint32(1<<bshift))...)
+	setInData(cmd, data, 8)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -622,20 +620,18 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		bshift           = cmd.Device.BlockShift
 		size             = cmd.Device.Size >> bshift
 		allocationLength uint32
+		data             = make([]byte, 32)
 	)
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint64(uint64(size-1)))
-	if allocationLength > 12 {
-		copy(cmd.InSDBBuffer.Buffer[8:], util.MarshalUint32(uint32(1<<bshift)))
-		if allocationLength > 16 {
-			var lbpme int
-			if cmd.Device.Attrs.ThinProvisioning {
-				lbpme = 1
-			}
-			val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
-			copy(cmd.InSDBBuffer.Buffer[12:], util.MarshalUint32(uint32(val)))
-		}
-	}
+	copy(data, util.MarshalUint64(uint64(size-1)))
+	copy(data[8:], util.MarshalUint32(uint32(1<<bshift)))
+	var lbpme int
+	if cmd.Device.Attrs.ThinProvisioning {
+		lbpme = 1
+	}
+	val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
+	copy(data[12:], util.MarshalUint32(uint32(val)))
+	setInData(cmd, data, allocationLength)
 	return api.SAMStatGood
 }
 
@@ -702,7 +698,8 @@ func SBCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	case api.SAI_GET_LBA_STATUS:
 		return SBCGetLbaStatus(host, cmd)
 	}
-	return api.SAMStatGood
+	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+	return api.SAMStatCheckCondition
 }
 
 /*
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index eb19a2e..119f3c2 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -52,6 +52,16 @@ func SPCLuOnline(lu *api.SCSILu) error {
 	return nil
 }
 
+// setInData is where a command leaves what it returns: no more of it than was
+// asked for, and of that as much as the initiator expects is copied.
+func setInData(cmd *api.SCSICommand, data []byte, allocationLength uint32) {
+	if uint32(len(data)) > allocationLength {
+		data = data[:allocationLength]
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
+}
+
 func InquiryPage0x00(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	var (
 		buf               = &bytes.Buffer{}
@@ -166,7 +176,9 @@ func InquiryPage0x83(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	binary.Write(descBuf, binary.BigEndian, portID)
 
 	//DESCRIPTOR 5 SCSI Name,Port
-	portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
+	if targetPort != nil {
+		portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
+	}
 	descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
 	descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
 	descBuf.WriteByte(0x00)
@@ -318,12 +330,7 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 			goto sense
 		}
 		data = buf.Bytes()
-		if int(allocationLength) < len(data) {
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-		} else {
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
+		setInData(cmd, data, uint32(allocationLength))
 	} else {
 		if pcode != 0 {
 			goto sense
@@ -387,13 +394,7 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 
 		buf.Write(addBufData)
 		data = buf.Bytes()
-		if allocationLength < uint16(additionLength) {
-			cmd.InSDBBuffer.Resid = uint32(allocationLength)
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-		} else {
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
+		setInData(cmd, data, uint32(allocationLength))
 	}
 
 	return api.SAMStatGood
@@ -453,11 +454,7 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		buf.Write(util.MarshalUint64(lun))
 	}
 
-	cmd.InSDBBuffer.Resid = uint32(buf.Len())
-	if cmd.InSDBBuffer.Resid > allocationLength {
-		cmd.InSDBBuffer.Resid = allocationLength
-	}
-	copy(cmd.InSDBBuffer.Buffer, buf.Bytes())
+	setInData(cmd, buf.Bytes(), allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -567,13 +564,13 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	if mode6 {
 		allocLen = uint32(scb[4])
 		// set header
-		for i = 0; i < 4 && i < allocLen; i++ {
+		for i = 0; i < 4; i++ {
 			data = append(data, 0x00)
 		}
 	} else {
 		allocLen = uint32(util.GetUnalignedUint16(scb[7:9]))
 		// set header
-		for i = 0; i < 8 && i < allocLen; i++ {
+		for i = 0; i < 8; i++ {
 			data = append(data, 0x00)
 		}
 	}
@@ -637,10 +634,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		data[6] = uint8(blkDesctionLen >> 8)
 		data[7] = uint8(blkDesctionLen)
 	}
-	if rlen := uint32(len(data)); rlen > allocLen {
-		cmd.InSDBBuffer.Resid = allocLen
-	}
-	copy(cmd.InSDBBuffer.Buffer, data)
+	setInData(cmd, data, allocLen)
 	return api.SAMStatGood
 sense:
 	BuildSenseData(cmd, key, asc)
@@ -708,8 +702,8 @@ func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 			}
 		}
 	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(len(data)-4)))
-	copy(cmd.InSDBBuffer.Buffer[4:], data[4:])
+	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	setInData(cmd, data, util.GetUnalignedUint32(cmd.SCB[6:10]))
 	return nil
 }
 
@@ -1395,24 +1389,14 @@ sense:
 func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		allocationLength uint32
-		actualLength     uint32
 	)
 
-	allocationLength = util.GetUnalignedUint32(cmd.SCB[4:8])
-	if allocationLength > cmd.InSDBBuffer.Length {
-		allocationLength = cmd.InSDBBuffer.Length
-	}
+	allocationLength = uint32(cmd.SCB[4])
 	BuildSenseData(cmd, NO_SENSE, NO_ADDITIONAL_SENSE)
-	if cmd.SenseBuffer.Length < allocationLength {
-		actualLength = cmd.SenseBuffer.Length
-	} else {
-		actualLength = allocationLength
-	}
-	copy(cmd.InSDBBuffer.Buffer, cmd.SenseBuffer.Buffer[:actualLength])
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
+	setInData(cmd, cmd.SenseBuffer.Buffer, allocationLength)
 
 	// reset sense buffer in cmnd
-	cmd.SenseBuffer = &api.SenseBuffer{}
+	cmd.SenseBuffer = nil
 
 	return api.SAMStatGood
 }
-- 
2.43.0


From 2504479faf19209f6c6ea556234b8de2485c0287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 14/35] fix: a short read of the backing store is an error

---
 pkg/scsi/backingstore/common.go        | 7 +++++++
 pkg/scsi/backingstore/remote/remote.go | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/scsi/backingstore/common.go b/pkg/scsi/backingstore/common.go
index 3160a78..10f0033 100644
--- a/pkg/scsi/backingstore/common.go
+++ b/pkg/scsi/backingstore/common.go
@@ -106,6 +106,13 @@ func (bs *FileBackingStore) Read(offset, tl int64) ([]byte, error) {
 	}
 	tmpbuf := make([]byte, tl)
 	length, err := bs.file.ReadAt(tmpbuf, offset)
+	if err == io.EOF {
+		// there is nothing yet where the unit has grown beyond its file
+		if uint64(offset)+uint64(length) >= bs.DataSize {
+			return tmpbuf, nil
+		}
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/scsi/backingstore/remote/remote.go b/pkg/scsi/backingstore/remote/remote.go
index 5d6a12e..00a7390 100644
--- a/pkg/scsi/backingstore/remote/remote.go
+++ b/pkg/scsi/backingstore/remote/remote.go
@@ -18,6 +18,7 @@ package remote
 
 import (
 	"fmt"
+	"io"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/scsi"
@@ -82,6 +83,10 @@ func (bs *RemBackingStore) Size(dev *api.SCSILu) uint64 {
 func (bs *RemBackingStore) Read(offset, tl int64) ([]byte, error) {
 	tmpbuf := make([]byte, tl)
 	length, err := bs.RemBs.ReadAt(tmpbuf, offset)
+	if err == io.EOF {
+		// this may come with all of the data
+		err = nil
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6ae0ec9dda2680534619a08db69e88c5277fd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 15/35] fix: report backend errors, serve ORWRITE and WRITE
 SAME, keep within the command's length and the medium

---
 pkg/api/types.go         |   2 +
 pkg/scsi/backingstore.go |  73 +++++++++++++++++---------
 pkg/scsi/sbc.go          | 109 ++++++++++++++++++++++++++++++++++-----
 3 files changed, 148 insertions(+), 36 deletions(-)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index 591f1f0..874ddee 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -400,6 +400,8 @@ type SCSILu struct {
 	SCSIVendorID        string
 	SCSIProductID       string
 	SCSIID              string
+	// held for writing by a command that reads and then writes
+	WriteMutex sync.RWMutex
 
 	PerformCommand CommandFunc
 	FinishCommand  func(*SCSITarget, *SCSICommand)
diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 9890695..a6476de 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -51,6 +51,41 @@ func NewBackingStore(name string) (api.BackingStore, error) {
 	return f()
 }
 
+// outData returns what there is of the length bytes a command takes
+func outData(cmd *api.SCSICommand, length int64) []byte {
+	if cmd.OutSDBBuffer == nil {
+		return nil
+	}
+	cmd.OutSDBBuffer.Resid = uint32(length)
+	if int64(len(cmd.OutSDBBuffer.Buffer)) > length {
+		return cmd.OutSDBBuffer.Buffer[:length]
+	}
+	return cmd.OutSDBBuffer.Buffer
+}
+
+// bsWriteSame writes one block of data to each block of a range
+func bsWriteSame(lu *api.SCSILu, block []byte, offset, length uint64) error {
+	const chunk = 1 << 20
+	lu.WriteMutex.RLock()
+	defer lu.WriteMutex.RUnlock()
+	count := uint64(chunk / len(block))
+	if count == 0 {
+		count = 1
+	}
+	data := bytes.Repeat(block, int(count))
+	for length > 0 {
+		if length < uint64(len(data)) {
+			data = data[:length]
+		}
+		if err := lu.Storage.Write(data, int64(offset)); err != nil {
+			return err
+		}
+		offset += uint64(len(data))
+		length -= uint64(len(data))
+	}
+	return nil
+}
+
 func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key byte, asc SCSISubError) {
 	var (
 		scb        = cmd.SCB
@@ -69,15 +104,17 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	switch opcode {
 	case api.ORWRITE_16:
 		tmpbuf := []byte{}
+		lu.WriteMutex.Lock()
+		defer lu.WriteMutex.Unlock()
 		tmpbuf, err = bs.Read(int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
-		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
+		wbuf = outData(cmd, tl)
+		for i := range wbuf {
+			wbuf[i] |= tmpbuf[i]
 		}
 		doWrite = true
 		goto write
@@ -92,7 +129,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		break
 	case api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
@@ -100,21 +137,18 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		fallthrough
 	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16:
 		// For stupid client which does not set WRITE flag
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
-		}
+		wbuf = outData(cmd, tl)
+		lu.WriteMutex.RLock()
+		defer lu.WriteMutex.RUnlock()
 		doWrite = true
 		goto write
-	case api.WRITE_SAME, api.WRITE_SAME_16:
-		// TODO
-		break
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
 		rbuf = make([]byte, int(tl))
 		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		length = len(rbuf)
 		for i := 0; i < int(tl)-length; i++ {
@@ -124,24 +158,17 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if (opcode != api.READ_6) && (scb[1]&0x10 != 0) {
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
 		}
-		cmd.InSDBBuffer.Resid = uint32(length)
-		if cmd.InSDBBuffer.Length < uint32(length) {
-			key = ILLEGAL_REQUEST
-			asc = ASC_INVALID_FIELD_IN_CDB
-			goto sense
-		}
-		copy(cmd.InSDBBuffer.Buffer, rbuf)
+		setInData(cmd, rbuf, uint32(tl))
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
+			goto sense
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
 		// For stupid client which does not set WRITE flag
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
-		}
+		wbuf = outData(cmd, tl)
 		doVerify = true
 		goto verify
 	default:
@@ -190,7 +217,7 @@ verify:
 			asc = ASC_READ_ERROR
 			goto sense
 		}
-		if !bytes.Equal(wbuf, rbuf) {
+		if !bytes.Equal(wbuf, rbuf[:len(wbuf)]) {
 			err = fmt.Errorf("verify fail between out buffer[length=%d] and read buffer[length=%d]", len(wbuf), len(rbuf))
 			key = MISCOMPARE
 			asc = ASC_MISCOMPARE_DURING_VERIFY_OPERATION
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 351152b..ef75d54 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -20,6 +20,7 @@ package scsi
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -309,14 +310,42 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	const blockDescLen = 16
 
-	var blockDescs []api.UnmapBlockDescriptor
-	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
-		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
-		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
-		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
-			Offset: lba << cmd.Device.BlockShift,
-			TL:     num << cmd.Device.BlockShift,
-		})
+	var (
+		blockDescs []api.UnmapBlockDescriptor
+		dev        = cmd.Device
+		maxBlocks  = uint32(1<<31) >> dev.BlockShift
+		paramLen   = int64(util.GetUnalignedUint16(cmd.SCB[7:9]))
+		data       = outData(cmd, paramLen)
+	)
+	if paramLen == 0 {
+		return api.SAMStatGood
+	}
+	if len(data) < 8 {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_PARAMETER_LIST_LENGTH_ERR)
+		return api.SAMStatCheckCondition
+	}
+	if end := 8 + int(util.GetUnalignedUint16(data[2:4])); end < len(data) {
+		data = data[:end]
+	}
+	for off := 8; off+blockDescLen <= len(data); off += blockDescLen {
+		lba := binary.BigEndian.Uint64(data[off : off+8])
+		num := binary.BigEndian.Uint32(data[off+8 : off+12])
+		if lba+uint64(num) < lba || lba+uint64(num) > dev.Size>>dev.BlockShift {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+			return api.SAMStatCheckCondition
+		}
+		for num > 0 {
+			n := num
+			if n > maxBlocks {
+				n = maxBlocks
+			}
+			blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
+				Offset: lba << dev.BlockShift,
+				TL:     n << dev.BlockShift,
+			})
+			lba += uint64(n)
+			num -= n
+		}
 	}
 
 	if len(blockDescs) == 0 {
@@ -437,6 +466,13 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	cmd.Offset = lba << dev.BlockShift
+	switch opcode {
+	case api.WRITE_SAME, api.WRITE_SAME_16:
+		return sbcWriteSame(cmd, lba, tl)
+	}
+	if uint64(tl)<<dev.BlockShift > math.MaxUint32 {
+		goto sense
+	}
 	cmd.TL = tl << dev.BlockShift
 
 	// Handle residuals
@@ -466,7 +502,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	if err != nil {
 		log.Errorf("Error from backend: %v", err)
 		BuildSenseData(cmd, key, asc)
-		return api.SAMStatBusy
+		return api.SAMStatCheckCondition
 	} else {
 		return api.SAMStatGood
 	}
@@ -476,6 +512,38 @@ sense:
 	return api.SAMStatCheckCondition
 }
 
+// sbcWriteSame implements the part of WRITE SAME(10) and WRITE SAME(16) that is
+// left once the range has been checked
+func sbcWriteSame(cmd *api.SCSICommand, lba uint64, tl uint32) api.SAMStat {
+	var (
+		dev    = cmd.Device
+		scb    = cmd.SCB
+		block  = make([]byte, 1<<dev.BlockShift)
+		length = uint64(tl) << dev.BlockShift
+	)
+	// neither the LBA nor the physical block address is put into the data
+	if scb[1]&0x06 != 0 {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+		return api.SAMStatCheckCondition
+	}
+	// zeroes are written when there is no data out buffer (NDOB)
+	if api.SCSICommandType(scb[0]) != api.WRITE_SAME_16 || scb[1]&0x01 == 0 {
+		if copy(block, outData(cmd, int64(len(block)))) < len(block) {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+			return api.SAMStatCheckCondition
+		}
+	}
+	if tl == 0 {
+		length = dev.Size>>dev.BlockShift<<dev.BlockShift - cmd.Offset
+	}
+	if err := bsWriteSame(dev, block, cmd.Offset, length); err != nil {
+		log.Errorf("Error from backend: %v", err)
+		BuildSenseData(cmd, MEDIUM_ERROR, ASC_WRITE_ERROR)
+		return api.SAMStatCheckCondition
+	}
+	return api.SAMStatGood
+}
+
 func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 	if err := deviceReserve(cmd); err != nil {
 		return api.SAMStatReservationConflict
@@ -571,9 +639,9 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
+	if scb[1]&0x04 != 0 {
+		// a single block compared with each of the media is not supported
+		goto sense
 	}
 	lba = getSCSIReadWriteOffset(scb)
 	tl = getSCSIReadWriteCount(scb)
@@ -595,7 +663,15 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
+	if scb[1]&0x02 == 0 {
+		// no data compare with the media
+		return api.SAMStatGood
+	}
+
 	cmd.Offset = lba << dev.BlockShift
+	if uint64(tl)<<dev.BlockShift > math.MaxUint32 {
+		goto sense
+	}
 	cmd.TL = tl << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
@@ -718,8 +794,15 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	tl := getSCSIReadWriteCount(scb)
 	dev := cmd.Device
 
+	if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+		return api.SAMStatCheckCondition
+	}
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	// a range that does not fit is synchronized up to the end
+	if uint64(tl)<<dev.BlockShift <= math.MaxUint32 {
+		cmd.TL = tl << dev.BlockShift
+	}
 
 	err, key, asc := bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
-- 
2.43.0


From b3e8db743c1b008d9d721a73098b1deed939133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 16/35] fix: report residual, status and statistics of the
 command itself

---
 pkg/port/iscsit/cmd.go    | 37 ++++++++++++++++++++++---------------
 pkg/port/iscsit/conn.go   | 38 ++++++++++++++++++++++++++------------
 pkg/port/iscsit/iscsid.go | 24 ++++++++++++------------
 3 files changed, 60 insertions(+), 39 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index cc7e13b..6d00fd9 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -102,6 +102,7 @@ type ISCSICommand struct {
 	ExpCmdSN, MaxCmdSN uint32
 	AHSLen             int
 	Resid              uint32
+	ResidOverflow      bool
 	// aborted before its turn came
 	Aborted bool
 
@@ -304,13 +305,23 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	return m, nil
 }
 
+// setResidual sets how far the data of a command are from what was expected
+func (m *ISCSICommand) setResidual(expected, actual uint32) {
+	if actual > expected {
+		m.Resid = actual - expected
+		m.ResidOverflow = true
+	} else {
+		m.Resid = expected - actual
+	}
+}
+
 func (m *ISCSICommand) scsiCmdRespBytes() []byte {
 	// rfc7143 11.4
 	buf := bytes.Buffer{}
 	buf.WriteByte(byte(OpSCSIResp))
 	var flag byte = 0x80
 	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
+		if m.ResidOverflow {
 			flag |= 0x04
 		} else {
 			flag |= 0x02
@@ -359,24 +370,21 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	if m.FinalInSeq || m.Final == true {
 		flag |= 0x80
 	}
+	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
+	// status and residual come with the last of the data
 	if m.HasStatus && m.Final == true {
 		flag |= 0x01
-	}
-	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
-			flag |= 0x04
-		} else if m.Resid < m.ExpectedDataLen {
-			flag |= 0x02
+		if m.Resid > 0 {
+			if m.ResidOverflow {
+				flag |= 0x04
+			} else {
+				flag |= 0x02
+			}
 		}
+		buf[3] = byte(m.Status)
+		copy(buf[44:], util.MarshalUint32(m.Resid))
 	}
 	buf[1] = flag
-	//buf.WriteByte(0x00)
-	if m.HasStatus && m.Final == true {
-		flag = byte(m.Status)
-	}
-	//buf.WriteByte(flag)
-	buf[3] = flag
 	copy(buf[5:], util.MarshalUint64(uint64(m.DataLen))[5:])
 	// Skip through to byte 16 Since A bit is not set 11.7.4
 	copy(buf[16:], util.MarshalUint32(m.TaskTag))
@@ -385,7 +393,6 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
 	copy(buf[36:], util.MarshalUint32(m.DataSN))
 	copy(buf[40:], util.MarshalUint32(m.BufferOffset))
-	copy(buf[44:], util.MarshalUint32(m.Resid))
 	if m.ExpectedDataLen != 0 {
 		copy(buf[48:], m.RawData[m.BufferOffset:m.BufferOffset+uint32(m.DataLen)])
 	}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index e84cf10..3a41def 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -180,26 +180,40 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		}
 	case OpSCSIIn, OpSCSIResp:
 		conn.resp.OpCode = oc
-		conn.resp.SCSIOpCode = conn.req.SCSIOpCode
+		// the request may be the last of the data rather than the command
+		conn.resp.SCSIOpCode = task.cmd.SCSIOpCode
+		conn.resp.StartTime = task.cmd.StartTime
+		conn.resp.ExpectedDataLen = task.cmd.ExpectedDataLen
 		conn.resp.Immediate = true
 		conn.resp.Final = true
 		conn.resp.SCSIResponse = 0x00
 		conn.resp.HasStatus = true
 		scmd := task.scmd
 		conn.resp.Status = scmd.Result
-		if scmd.Result != 0 && scmd.SenseBuffer != nil {
-			length := util.MarshalUint32(scmd.SenseBuffer.Length)
-			conn.resp.RawData = append(length[2:4], scmd.SenseBuffer.Buffer...)
-		} else if scmd.Direction == api.SCSIDataRead || scmd.Direction == api.SCSIDataWrite {
-			if scmd.InSDBBuffer != nil {
-				conn.resp.Resid = scmd.InSDBBuffer.Resid
-				if conn.resp.Resid != 0 && conn.resp.Resid < scmd.InSDBBuffer.Length {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer[:conn.resp.Resid]
-				} else {
+		if scmd.Result != 0 {
+			if scmd.SenseBuffer != nil {
+				length := util.MarshalUint32(scmd.SenseBuffer.Length)
+				conn.resp.RawData = append(length[2:4], scmd.SenseBuffer.Buffer...)
+			}
+			if scmd.Direction == api.SCSIDataRead {
+				conn.resp.setResidual(task.cmd.ExpectedDataLen, 0)
+			}
+		} else {
+			// what the command returned or took
+			actual := scmd.InSDBBuffer.Resid + scmd.OutSDBBuffer.Resid
+			switch scmd.Direction {
+			case api.SCSIDataRead:
+				if oc == OpSCSIIn {
 					conn.resp.RawData = scmd.InSDBBuffer.Buffer
+					if scmd.InSDBBuffer.Resid < scmd.InSDBBuffer.Length {
+						conn.resp.RawData = scmd.InSDBBuffer.Buffer[:scmd.InSDBBuffer.Resid]
+					}
 				}
-			} else {
-				conn.resp.RawData = []byte{}
+				conn.resp.setResidual(task.cmd.ExpectedDataLen, actual)
+			case api.SCSIDataWrite:
+				conn.resp.setResidual(task.cmd.ExpectedDataLen, actual)
+			default:
+				conn.resp.setResidual(0, actual)
 			}
 		}
 
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index e77ec87..fc2ac2f 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -745,6 +745,8 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			ITNexusID:       conn.session.ITNexus.ID,
 			SCB:             req.CDB,
 			SCBLength:       len(req.CDB),
+			InSDBBuffer:     &api.SCSIDataBuffer{},
+			OutSDBBuffer:    &api.SCSIDataBuffer{},
 			Lun:             req.LUN,
 			Tag:             uint64(req.TaskTag),
 			RelTargetPortID: conn.session.TPGT,
@@ -764,8 +766,8 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: scmd}
 		task.scmd.OpCode = conn.req.SCSIOpCode
 		if scmd.Direction == api.SCSIDataBidirection {
-			task.scmd.Result = api.SAMStatCheckCondition.Stat
 			scsi.BuildSenseData(task.scmd, scsi.ILLEGAL_REQUEST, scsi.NO_ADDITIONAL_SENSE)
+			task.scmd.Result = api.SAMStatCheckCondition.Stat
 			conn.buildRespPackage(OpSCSIResp, task)
 			conn.rxTask = nil
 			break
@@ -777,15 +779,13 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 				task.unsolCount = 1
 			}
 			// new buffer for the data out
-			if scmd.OutSDBBuffer == nil {
-				blen := int(req.ExpectedDataLen)
-				if blen == 0 {
-					blen = int(req.DataLen)
-				}
-				scmd.OutSDBBuffer = &api.SCSIDataBuffer{
-					Length: uint32(blen),
-					Buffer: make([]byte, blen),
-				}
+			blen := int(req.ExpectedDataLen)
+			if blen == 0 {
+				blen = int(req.DataLen)
+			}
+			scmd.OutSDBBuffer = &api.SCSIDataBuffer{
+				Length: uint32(blen),
+				Buffer: make([]byte, blen),
 			}
 			log.Debugf("SCSI write, R2T count: %d, unsol Count: %d, offset: %d", task.r2tCount, task.unsolCount, task.offset)
 
@@ -810,7 +810,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 					return nil
 				}
 			}
-		} else if scmd.InSDBBuffer == nil {
+		} else if req.Read {
 			scmd.InSDBBuffer = &api.SCSIDataBuffer{
 				Length: uint32(req.ExpectedDataLen),
 				Buffer: make([]byte, int(req.ExpectedDataLen)),
@@ -821,7 +821,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		if err = s.iscsiExecTask(task); err != nil {
 			return
 		} else {
-			if scmd.Direction == api.SCSIDataRead && scmd.SenseBuffer == nil && req.ExpectedDataLen != 0 {
+			if scmd.Direction == api.SCSIDataRead && scmd.Result == 0 && req.ExpectedDataLen != 0 && scmd.InSDBBuffer.Resid != 0 {
 				conn.buildRespPackage(OpSCSIIn, task)
 			} else {
 				conn.buildRespPackage(OpSCSIResp, task)
-- 
2.43.0


From ce7e6625836d64459d9f70664a6704ceaa328344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:04 +0000
Subject: [PATCH 17/35] fix: persistent reservations answer, exclude and
 preempt as they should

---
 pkg/scsi/cmd.go       |  22 +--
 pkg/scsi/lun.go       |   3 +
 pkg/scsi/sbc.go       |  18 +--
 pkg/scsi/scsi.go      |   9 --
 pkg/scsi/scsi_pr.go   |  66 +++++++--
 pkg/scsi/scsilumap.go |   2 +
 pkg/scsi/spc.go       | 335 ++++++++++++++++++++----------------------
 7 files changed, 235 insertions(+), 220 deletions(-)

diff --git a/pkg/scsi/cmd.go b/pkg/scsi/cmd.go
index 4bb80c4..2e4d7aa 100644
--- a/pkg/scsi/cmd.go
+++ b/pkg/scsi/cmd.go
@@ -51,21 +51,21 @@ const (
 
 const (
 	//  6-byte commands
-	CDB_GROUPID_0 = 6
+	CDB_GROUPID_0 = 0
 	// 10-byte commands
-	CDB_GROUPID_1 = 10
+	CDB_GROUPID_1 = 1
 	// 10-byte commands
-	CDB_GROUPID_2 = 10
+	CDB_GROUPID_2 = 2
 	// reserved
-	CDB_GROUPID_3 = 0
+	CDB_GROUPID_3 = 3
 	// 16-byte commands
-	CDB_GROUPID_4 = 16
+	CDB_GROUPID_4 = 4
 	// 12-byte commands
-	CDB_GROUPID_5 = 12
+	CDB_GROUPID_5 = 5
 	// vendor specific
-	CDB_GROUPID_6 = 0
+	CDB_GROUPID_6 = 6
 	// vendor specific
-	CDB_GROUPID_7 = 0
+	CDB_GROUPID_7 = 7
 )
 
 func SCSICDBGroupID(opcode byte) byte {
@@ -252,7 +252,7 @@ func SCSICDBBufXLength(scb []byte) (int64, bool) {
 	switch group {
 	case CDB_GROUPID_0:
 		length = int64(scb[4])
-	case CDB_GROUPID_2:
+	case CDB_GROUPID_1, CDB_GROUPID_2:
 		length = int64(util.GetUnalignedUint16(scb[7:9]))
 	case CDB_GROUPID_3:
 		if opcode == 0x7F {
@@ -261,9 +261,9 @@ func SCSICDBBufXLength(scb []byte) (int64, bool) {
 			ok = false
 		}
 	case CDB_GROUPID_4:
-		length = int64(util.GetUnalignedUint32(scb[6:10]))
-	case CDB_GROUPID_5:
 		length = int64(util.GetUnalignedUint32(scb[10:14]))
+	case CDB_GROUPID_5:
+		length = int64(util.GetUnalignedUint32(scb[6:10]))
 	default:
 		ok = false
 	}
diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 244b24a..5389e31 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -91,6 +91,9 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 		// TODO host := cmd.ITNexus.Host
 		host := 0
 		cmd.State = api.SCSICommandProcessed
+		if persistentReservationConflict(cmd, fnop.PRConflictBits) {
+			return api.SAMStatReservationConflict
+		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	return api.SAMStatGood
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ef75d54..629b2e3 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -153,7 +153,7 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	}
 	sbc.SCSIDeviceOps[api.TEST_UNIT_READY] = NewSCSIDeviceOperation(SPCTestUnit, nil, 0)
 	sbc.SCSIDeviceOps[api.REQUEST_SENSE] = NewSCSIDeviceOperation(SPCRequestSense, nil, 0)
-	sbc.SCSIDeviceOps[api.FORMAT_UNIT] = NewSCSIDeviceOperation(SBCFormatUnit, nil, 0)
+	sbc.SCSIDeviceOps[api.FORMAT_UNIT] = NewSCSIDeviceOperation(SBCFormatUnit, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.READ_6] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_6] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.INQUIRY] = NewSCSIDeviceOperation(SPCInquiry, nil, 0)
@@ -169,14 +169,14 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	sbc.SCSIDeviceOps[api.READ_CAPACITY] = NewSCSIDeviceOperation(SBCReadCapacity, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_10] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.PRE_FETCH_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SYNCHRONIZE_CACHE] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
-	sbc.SCSIDeviceOps[api.WRITE_SAME] = NewSCSIDeviceOperation(SBCReadWrite, nil, 0)
-	sbc.SCSIDeviceOps[api.UNMAP] = NewSCSIDeviceOperation(SBCUnmap, nil, 0)
+	sbc.SCSIDeviceOps[api.WRITE_SAME] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.UNMAP] = NewSCSIDeviceOperation(SBCUnmap, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.MODE_SELECT_10] = NewSCSIDeviceOperation(SBCModeSelect, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.MODE_SENSE_10] = NewSCSIDeviceOperation(SBCModeSense, nil, PR_WE_FA|PR_WE_FN|PR_EA_FA|PR_EA_FN)
@@ -202,14 +202,14 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	sbc.SCSIDeviceOps[api.READ_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
 	if EnableORWrite16 {
-		sbc.SCSIDeviceOps[api.ORWRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+		sbc.SCSIDeviceOps[api.ORWRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	}
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_16] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.PRE_FETCH_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SYNCHRONIZE_CACHE_16] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_SAME_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, 0)
+	sbc.SCSIDeviceOps[api.WRITE_SAME_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SERVICE_ACTION_IN] = NewSCSIDeviceOperation(SBCServiceAction, nil, 0)
 
 	sbc.SCSIDeviceOps[api.REPORT_LUNS] = NewSCSIDeviceOperation(SPCReportLuns, nil, 0)
@@ -218,8 +218,8 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	}, 0)
 	sbc.SCSIDeviceOps[api.EXCHANGE_MEDIUM] = NewSCSIDeviceOperation(SPCIllegalOp, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
-	sbc.SCSIDeviceOps[api.WRITE_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FA|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_12] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	return sbc
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index d5f2f5d..a3f98ea 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -173,7 +173,6 @@ func NewSCSIDeviceOperation(fn api.CommandFunc, sa []*SCSIServiceAction, pr uint
 // BuildSenseData build sense data
 func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	senseBuffer := &bytes.Buffer{}
-	inBufLen, ok := SCSICDBBufXLength(cmd.SCB)
 	var (
 		length      uint32 = 0xa
 		fixedFormat bool   = true
@@ -213,14 +212,6 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		}
 		length += 8
 	}
-	if ok {
-		if int64(length) > inBufLen {
-			log.Warnf("sense buffer is bigger than in buffer")
-			senseBuffer.Truncate(int(inBufLen))
-		}
-	} else {
-		log.Debugf("cannot calc cbd alloc length. truncate failed")
-	}
 	cmd.Result = key
 	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
 }
diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index f61ec30..0c33dc2 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -17,6 +17,8 @@ limitations under the License.
 package scsi
 
 import (
+	"sync"
+
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/satori/go.uuid"
 )
@@ -43,6 +45,46 @@ type SCSIReservationOperator interface {
 
 var onePROperator SCSIReservationOperator
 
+// prMutex guards the persistent reservations and registrations of all units
+var prMutex sync.Mutex
+
+// persistentReservationConflict tells whether a persistent reservation keeps
+// the command out, bits say which kinds of reservation it conflicts with.
+func persistentReservationConflict(cmd *api.SCSICommand, bits uint8) bool {
+	if bits == 0 || cmd.Target == nil {
+		return false
+	}
+	prMutex.Lock()
+	defer prMutex.Unlock()
+	op := GetSCSIReservationOperator()
+	curRes := op.GetCurrentReservation(cmd.Target.Name, cmd.Device.UUID)
+	if curRes == nil {
+		return false
+	}
+	res := op.GetReservation(cmd.Target.Name, cmd.Device.UUID, cmd.ITNexusID)
+	if res != nil && op.IsCurrentReservation(cmd.Target.Name, cmd.Device.UUID, res) {
+		return false
+	}
+	if bits&PR_SPECIAL != 0 {
+		// START STOP UNIT may start the unit
+		if cmd.SCB[4]&0xf0 == 0 && cmd.SCB[4]&0x01 != 0 {
+			return false
+		}
+		bits |= PR_WE_FA | PR_EA_FA | PR_WE_FN | PR_EA_FN
+	}
+	switch curRes.Type {
+	case PR_TYPE_WRITE_EXCLUSIVE:
+		return bits&PR_WE_FA != 0
+	case PR_TYPE_EXCLUSIVE_ACCESS:
+		return bits&PR_EA_FA != 0
+	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY, PR_TYPE_WRITE_EXCLUSIVE_ALLREG:
+		return res == nil && bits&PR_WE_FN != 0
+	case PR_TYPE_EXCLUSIVE_ACCESS_REGONLY, PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+		return res == nil && bits&PR_EA_FN != 0
+	}
+	return false
+}
+
 func GetSCSIReservationOperator() SCSIReservationOperator {
 	if onePROperator == nil {
 		onePROperator = &SCSISimpleReservationOperator{
@@ -202,11 +244,14 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 		return
 	}
 
-	resArray := LURes.Reservations
 	curRes := LURes.CurrentReservation
+	// the reservation of all registrants has no particular holder
+	held := op.IsCurrentReservation(tgtName, devUUID, res)
+	resArray := LURes.Reservations
 
-	for i, tmpRes = range resArray {
+	for n, tmpRes := range resArray {
 		if tmpRes == res {
+			i = n
 			break
 		}
 	}
@@ -222,7 +267,7 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 		return
 	}
 
-	if !op.IsCurrentReservation(tgtName, devUUID, res) {
+	if !held {
 		return
 	}
 
@@ -232,15 +277,9 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 		curRes.Scope = 0
 		curRes.Type = 0
 		LURes.CurrentReservation = nil
-		for i, tmpRes = range resArray {
-			if tmpRes == res {
-				continue
-			}
-			//TODO send sense code
-		}
-		LURes.PRGeneration++
+		//TODO send sense code
 	} else {
-		for i, tmpRes = range resArray {
+		for _, tmpRes = range resArray {
 			if tmpRes != res {
 				//kep scope and type
 				LURes.CurrentReservation = tmpRes
@@ -249,7 +288,6 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 				break
 			}
 		}
-		LURes.PRGeneration++
 	}
 
 }
@@ -258,7 +296,6 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 	var (
 		LURes     *SCSILUReservation
 		targetRes SCSILUReservationMap
-		tmpRes    *api.SCSIReservation
 		i         int = -1
 		ok        bool
 	)
@@ -270,8 +307,9 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 	}
 	resArray := LURes.Reservations
 
-	for i, tmpRes = range resArray {
+	for n, tmpRes := range resArray {
 		if tmpRes == res {
+			i = n
 			break
 		}
 	}
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 558410f..d977417 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -139,6 +139,8 @@ func AddLUNMapping(m LUNMapping) error {
 	}
 	mappingLUN(m)
 	// Init SCSISimpleReservationOperator
+	prMutex.Lock()
+	defer prMutex.Unlock()
 	op := GetSCSIReservationOperator()
 	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
 		simpleOp.InitLUReservation(m.TargetName, m.DeviceID)
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 119f3c2..84e69df 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -22,6 +22,8 @@ import (
 	"encoding/binary"
 	"fmt"
 	"sort"
+	"strconv"
+	"strings"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -761,6 +763,11 @@ func SPCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	serviceAction := cmd.Device.DeviceProtocol.PerformServiceAction(opcode, action)
 	if serviceAction != nil {
 		fnop := serviceAction.(*SCSIServiceAction)
+		switch api.SCSICommandType(opcode) {
+		case api.PERSISTENT_RESERVE_IN, api.PERSISTENT_RESERVE_OUT:
+			prMutex.Lock()
+			defer prMutex.Unlock()
+		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	if cmd.InSDBBuffer != nil {
@@ -771,31 +778,23 @@ func SPCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		addBuf           []byte = []byte{}
-		allocationLength uint16
-		additionLength   uint32
-		l                int = 0
-	)
+	var data []byte
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
+	allocationLength := uint32(util.GetUnalignedUint16(cmd.SCB[7:9]))
 	if allocationLength < 8 {
 		goto sense
 	}
 
+	data = append(data, util.MarshalUint32(PRGeneration)...)
+	data = append(data, util.MarshalUint32(uint32(8*len(resList)))...)
 	for _, res := range resList {
-		addBuf = append(addBuf, util.MarshalUint64(res.Key)...)
+		data = append(data, util.MarshalUint64(res.Key)...)
 	}
-	additionLength = uint32(len(addBuf))
-
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(PRGeneration))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(additionLength))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], addBuf)
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	setInData(cmd, data, allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -806,53 +805,31 @@ sense:
 }
 
 func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		buf                     = &bytes.Buffer{}
-		data             []byte = []byte{}
-		addBuf                  = &bytes.Buffer{}
-		allocationLength uint16
-		additionLength   uint32
-	)
+	var data []byte
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
 	curRes := scsiResOp.GetCurrentReservation(tgtName, devUUID)
-
-	length, _ := SCSICDBBufXLength(cmd.SCB)
-	allocationLength = uint16(length)
+	allocationLength := uint32(util.GetUnalignedUint16(cmd.SCB[7:9]))
 	if allocationLength < 8 {
 		goto sense
 	}
 
+	data = append(data, util.MarshalUint32(PRGeneration)...)
 	if curRes == nil {
-		additionLength = 0
+		data = append(data, util.MarshalUint32(0)...)
 	} else {
-		addBuf.Write(util.MarshalUint64(curRes.Key))
-		//Obsolete
-		addBuf.WriteByte(0x00)
-		addBuf.WriteByte(0x00)
-		addBuf.WriteByte(0x00)
-		addBuf.WriteByte(0x00)
-		//Reserved
-		addBuf.WriteByte(0x00)
-		//SCOPE and TYPE
-		scope_type := (curRes.Scope << 4) | curRes.Type
-		addBuf.WriteByte(scope_type)
-		additionLength = uint32(0x10)
-	}
-
-	buf.Write(util.MarshalUint32(PRGeneration))
-	buf.Write(util.MarshalUint32(additionLength))
-	buf.Write(addBuf.Bytes())
-	data = buf.Bytes()
-	if allocationLength < uint16(additionLength) {
-		copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-	} else {
-		copy(cmd.InSDBBuffer.Buffer, data)
+		data = append(data, util.MarshalUint32(0x10)...)
+		key := curRes.Key
+		if isAllRegistrants(curRes.Type) {
+			key = 0
+		}
+		data = append(data, util.MarshalUint64(key)...)
+		// Obsolete and reserved, then SCOPE and TYPE, then obsolete
+		data = append(data, 0, 0, 0, 0, 0, curRes.Scope<<4|curRes.Type, 0, 0)
 	}
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	setInData(cmd, data, allocationLength)
 	return api.SAMStatGood
 
 sense:
@@ -864,36 +841,29 @@ sense:
 }
 
 func SPCPRReportCapabilities(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		availLength  uint32 = 8
-		actualLength uint32 = 0
-	)
+	data := make([]byte, 8)
 	allocationLength := uint32(util.GetUnalignedUint16(cmd.SCB[7:9]))
 	if allocationLength < 8 {
 		goto sense
 	}
-	if cmd.InSDBBuffer.Length < allocationLength {
-		goto sense
-	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint16(uint16(8)))
+	copy(data, util.MarshalUint16(uint16(8)))
 	// Persistent Reservation Type Mask format
 	// Type Mask Valid (TMV)
-	cmd.InSDBBuffer.Buffer[3] |= 0x80
-	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[4] |= 0x80
+	data[3] |= 0x80
+	// PR_TYPE_WRITE_EXCLUSIVE_ALLREG
+	data[4] |= 0x80
 	// PR_TYPE_EXCLUSIVE_ACCESS_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x40
+	data[4] |= 0x40
 	// PR_TYPE_WRITE_EXCLUSIVE_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x20
+	data[4] |= 0x20
 	// PR_TYPE_EXCLUSIVE_ACCESS
-	cmd.InSDBBuffer.Buffer[4] |= 0x08
+	data[4] |= 0x08
 	// PR_TYPE_WRITE_EXCLUSIVE
-	cmd.InSDBBuffer.Buffer[4] |= 0x02
+	data[4] |= 0x02
 	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[5] |= 0x01
+	data[5] |= 0x01
 
-	actualLength = availLength
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
+	setInData(cmd, data, allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -904,13 +874,8 @@ sense:
 }
 
 func reservationCheck(host int, cmd *api.SCSICommand) bool {
-	var (
-		paramLen uint32
-		buf      []byte = cmd.OutSDBBuffer.Buffer
-	)
-	length, _ := SCSICDBBufXLength(cmd.SCB)
-	paramLen = uint32(length)
-	if paramLen != 24 {
+	var buf []byte = outData(cmd, int64(util.GetUnalignedUint32(cmd.SCB[5:9])))
+	if len(buf) < 24 || util.GetUnalignedUint32(cmd.SCB[5:9]) != 24 {
 		return false
 	}
 	spec_i_pt := uint8(buf[20] & 0x08)
@@ -923,9 +888,28 @@ func reservationCheck(host int, cmd *api.SCSICommand) bool {
 	return true
 }
 
+// isAllRegistrants tells whether every registrant holds a reservation of a type
+func isAllRegistrants(resType uint8) bool {
+	return resType == PR_TYPE_WRITE_EXCLUSIVE_ALLREG || resType == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
+}
+
+// validReservation tells whether a reservation may have the scope and type
+func validReservation(resScope, resType uint8) bool {
+	switch resType {
+	case PR_TYPE_WRITE_EXCLUSIVE,
+		PR_TYPE_EXCLUSIVE_ACCESS,
+		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
+		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
+		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
+		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+		return resScope == PR_LU_SCOPE
+	}
+	return false
+}
+
 func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf       []byte = cmd.OutSDBBuffer.Buffer
+		buf       []byte
 		scb       []byte = cmd.SCB
 		ignoreKey bool   = false
 		ok        bool   = false
@@ -938,13 +922,14 @@ func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	scsiResOp := GetSCSIReservationOperator()
 	res := scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
 
-	if scb[1] == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
+	if scb[1]&0x1f == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
 		ignoreKey = true
 	}
 	ok = reservationCheck(host, cmd)
 	if !ok {
 		goto sense
 	}
+	buf = cmd.OutSDBBuffer.Buffer
 	resKey = util.GetUnalignedUint64(buf[0:8])
 	sAResKey = util.GetUnalignedUint64(buf[8:16])
 
@@ -990,6 +975,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 		curRes   *api.SCSIReservation
 		res      *api.SCSIReservation
 		ok       bool = false
+		resKey   uint64
 		resScope uint8
 		resType  uint8
 	)
@@ -1005,22 +991,14 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	resScope = scb[2] & 0xf0 >> 4
 	resType = scb[2] & 0x0f
+	resKey = util.GetUnalignedUint64(cmd.OutSDBBuffer.Buffer[0:8])
 
-	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
-		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
-		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
-		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
-		break
-	default:
-		goto sense
-	}
-	if resScope != PR_LU_SCOPE {
+	if !validReservation(resScope, resType) {
 		goto sense
 	}
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || res.Key != resKey {
 		return api.SAMStatReservationConflict
 	}
 
@@ -1050,11 +1028,9 @@ sense:
 
 func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf      []byte = cmd.OutSDBBuffer.Buffer
 		scb      []byte = cmd.SCB
 		curRes   *api.SCSIReservation
 		res      *api.SCSIReservation
-		resList  []*api.SCSIReservation
 		ok       bool = false
 		resKey   uint64
 		resScope uint8
@@ -1072,10 +1048,10 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	resScope = scb[2] & 0xf0 >> 4
 	resType = scb[2] & 0x0f
-	resKey = util.GetUnalignedUint64(buf[0:8])
+	resKey = util.GetUnalignedUint64(cmd.OutSDBBuffer.Buffer[0:8])
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || resKey != res.Key {
 		return api.SAMStatReservationConflict
 	}
 
@@ -1088,10 +1064,6 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatGood
 	}
 
-	if resKey != res.Key {
-		return api.SAMStatReservationConflict
-	}
-
 	if curRes.Scope != resScope || curRes.Type != resType {
 		if cmd.InSDBBuffer != nil {
 			cmd.InSDBBuffer.Resid = 0
@@ -1100,29 +1072,10 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatCheckCondition
 	}
 
+	curRes.Scope = 0
+	curRes.Type = 0
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, nil)
-	res.Scope = 0
-	res.Type = 0
-
-	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE,
-		PR_TYPE_EXCLUSIVE_ACCESS,
-		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
-		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
-		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
-		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
-		break
-	default:
-		goto sense
-	}
-
-	resList = scsiResOp.GetReservationList(tgtName, devUUID)
-	for _, tmpRes := range resList {
-		if tmpRes.ID == res.ID {
-			continue
-		}
-		//TODO send sense code
-	}
+	//TODO send sense code to the other registrants
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
 sense:
@@ -1135,7 +1088,6 @@ sense:
 
 func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf    []byte = cmd.OutSDBBuffer.Buffer
 		curRes *api.SCSIReservation
 		res    *api.SCSIReservation
 		ok     bool = false
@@ -1145,14 +1097,13 @@ func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	ok = reservationCheck(host, cmd)
 	if !ok {
 		goto sense
 	}
 
-	resKey = util.GetUnalignedUint64(buf[0:8])
+	resKey = util.GetUnalignedUint64(cmd.OutSDBBuffer.Buffer[0:8])
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
 
@@ -1172,12 +1123,8 @@ func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 		scsiResOp.SetCurrentReservation(tgtName, devUUID, nil)
 	}
 
-	for _, tmpRes := range resList {
-		if tmpRes != res {
-			//TODO send sense code
-		}
-		scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
-	}
+	//TODO send sense code to the other registrants
+	scsiResOp.RemoveAllReservation(tgtName, devUUID)
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
@@ -1191,14 +1138,15 @@ sense:
 
 func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf          []byte = cmd.OutSDBBuffer.Buffer
+		buf          []byte
 		scb          []byte = cmd.SCB
 		ok           bool   = false
 		resKey       uint64
 		sAResKey     uint64
 		res          *api.SCSIReservation
 		curRes       *api.SCSIReservation
-		resReleased  bool
+		resList      []*api.SCSIReservation
+		takeOver     bool
 		removeAllRes bool
 		resScope     uint8
 		resType      uint8
@@ -1207,12 +1155,12 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	ok = reservationCheck(host, cmd)
 	if !ok {
 		goto sense
 	}
+	buf = cmd.OutSDBBuffer.Buffer
 	resScope = scb[2] & 0xf0 >> 4
 	resType = scb[2] & 0x0f
 	resKey = util.GetUnalignedUint64(buf[0:8])
@@ -1230,54 +1178,47 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	if sAResKey != 0 {
 		ok = scsiResOp.IsKeyExists(tgtName, devUUID, sAResKey)
-		if ok {
+		if !ok {
 			return api.SAMStatReservationConflict
 		}
 	}
 
 	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
 	if curRes != nil {
-		if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
-			curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
+		if isAllRegistrants(curRes.Type) {
 			if sAResKey == 0 {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
+				takeOver = true
 				removeAllRes = true
 			}
-		} else {
-			if curRes.Key == resKey {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-			} else {
-				if sAResKey == 0 {
-					goto sense
-				}
-			}
+		} else if curRes.Key == sAResKey {
+			takeOver = true
 		}
 	}
+	if sAResKey == 0 && !takeOver {
+		goto sense
+	}
+	if takeOver && !validReservation(resScope, resType) {
+		goto sense
+	}
 
+	// the list changes as registrations are removed from it
+	resList = append(resList, scsiResOp.GetReservationList(tgtName, devUUID)...)
+	if takeOver {
+		curRes.Scope = 0
+		curRes.Type = 0
+		res.Type = resType
+		res.Scope = resScope
+		scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
+	}
 	for _, tmpRes := range resList {
 		if tmpRes == res {
 			continue
 		}
-
-		if res.Key == resKey || removeAllRes {
-			//TODO send sense code
-			scsiResOp.RemoveReservation(tgtName, devUUID, res)
-		} else {
-			if resReleased {
-				//TODO send sense code
-			}
+		//TODO send sense code
+		if takeOver && (removeAllRes || tmpRes.Key == sAResKey) {
+			scsiResOp.RemoveReservation(tgtName, devUUID, tmpRes)
+		} else if tmpRes.Key == sAResKey {
+			scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
 		}
 	}
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
@@ -1291,27 +1232,56 @@ sense:
 	return api.SAMStatCheckCondition
 }
 
+// findITNexus finds the I_T nexus between the initiator port that an iSCSI
+// TransportID names and a port of the target
+func findITNexus(target *api.SCSITarget, transportID []byte, relPortID uint16) *api.ITNexus {
+	if transportID[0]&0x0f != 0x05 {
+		return nil
+	}
+	length := int(util.GetUnalignedUint16(transportID[2:4]))
+	if length > len(transportID)-4 {
+		return nil
+	}
+	port := string(bytes.TrimRight(transportID[4:4+length], "\x00"))
+	sep := strings.Index(port, ",i,0x")
+	if transportID[0]>>6 != 1 || sep < 0 {
+		return nil
+	}
+	isid, err := strconv.ParseUint(port[sep+5:], 16, 48)
+	if err != nil {
+		return nil
+	}
+	tag := fmt.Sprintf("%si0x%12x,%st%d", port[:sep], isid, target.Name, relPortID)
+	target.ITNexusMutex.Lock()
+	defer target.ITNexusMutex.Unlock()
+	for _, itn := range target.ITNexus {
+		if itn.Tag == tag {
+			return itn
+		}
+	}
+	return nil
+}
+
 func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf                 []byte = cmd.OutSDBBuffer.Buffer
+		buf                 []byte = outData(cmd, int64(util.GetUnalignedUint32(cmd.SCB[5:9])))
 		scb                 []byte = cmd.SCB
 		resKey              uint64
 		sAResKey            uint64
 		curRes, dstReg, res *api.SCSIReservation
+		itn                 *api.ITNexus
 		paramListLen        uint32
 		unreg               uint8
 		aptpl               uint8
 		tpidDataLen         uint32
-		//idLen        uint32
 	)
 
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
-	if paramListLen < 24 {
+	if paramListLen < 24 || uint64(paramListLen) > uint64(len(buf)) {
 		goto sense
 	}
 	aptpl = buf[17] & 0x01
@@ -1324,7 +1294,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resKey = util.GetUnalignedUint64(buf[0:8])
 	sAResKey = util.GetUnalignedUint64(buf[8:16])
 
-	tpidDataLen = util.GetUnalignedUint32(buf[20:25])
+	tpidDataLen = util.GetUnalignedUint32(buf[20:24])
 	if tpidDataLen < 24 || (tpidDataLen%4) != 0 {
 		goto sense
 	}
@@ -1343,27 +1313,38 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
-	if scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
-		return api.SAMStatGood
+	if res.Key != resKey {
+		return api.SAMStatReservationConflict
 	}
 
-	if res.Key != resKey {
+	if curRes == nil {
+		goto sense
+	}
+
+	// only the one holder of the reservation can move it
+	if curRes != res || isAllRegistrants(curRes.Type) {
 		return api.SAMStatReservationConflict
 	}
 
 	if sAResKey == 0 {
-		return api.SAMStatReservationConflict
+		goto sense
 	}
 
-	for _, dstReg = range resList {
-		if dstReg.Key == sAResKey {
-			goto found
+	itn = findITNexus(cmd.Target, buf[24:24+tpidDataLen], util.GetUnalignedUint16(buf[18:20]))
+	if itn == nil || uuid.Equal(itn.ID, cmd.ITNexusID) {
+		goto sense
+	}
+	dstReg = scsiResOp.GetReservation(tgtName, devUUID, itn.ID)
+	if dstReg == nil {
+		dstReg = &api.SCSIReservation{
+			ID:        uuid.NewV1(),
+			ITNexusID: itn.ID,
 		}
+		scsiResOp.AddReservation(tgtName, devUUID, dstReg)
 	}
-
-	goto sense
-found:
-	//TODO check transportid
+	dstReg.Key = sAResKey
+	dstReg.Scope, dstReg.Type = curRes.Scope, curRes.Type
+	res.Scope, res.Type = 0, 0
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, dstReg)
 	if unreg != 0 {
 		scsiResOp.RemoveReservation(tgtName, devUUID, res)
-- 
2.43.0


From a55ad74a81f80d798419cc4fdec671882522d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 18/35] fix: sessions end with their connections, are replaced
 by a login of the same initiator port and negotiate by the rules

---
 pkg/port/iscsit/conn.go    |  40 ++++--
 pkg/port/iscsit/iscsid.go  | 157 +++++++++++++--------
 pkg/port/iscsit/login.go   | 179 ++++++++++++------------
 pkg/port/iscsit/session.go | 274 ++++++++++++++++++++-----------------
 4 files changed, 376 insertions(+), 274 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 3a41def..9bea754 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -21,6 +21,7 @@ import (
 	"net"
 	"sort"
 	"sync"
+	"sync/atomic"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -87,6 +88,13 @@ type iscsiConnection struct {
 	txTask *iscsiTask
 
 	readLock *sync.RWMutex
+
+	// host is where the connection comes from if it counts as one of the
+	// connections of the current host
+	host string
+	// replaced is set once a newer connection takes the place of this one
+	replaced  int32
+	closeOnce sync.Once
 }
 
 type taskState int
@@ -143,9 +151,17 @@ func (c *iscsiConnection) close() {
 	c.conn.Close()
 }
 
-func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
-	conn.close()
-	conn.conn = newConn.conn
+// shutdown ends a connection whose place a newer one takes. Once it returns no
+// command of the connection is being processed or will be.
+func (c *iscsiConnection) shutdown() {
+	atomic.StoreInt32(&c.replaced, 1)
+	c.close()
+	c.readLock.Lock()
+	c.readLock.Unlock()
+}
+
+func (c *iscsiConnection) isReplaced() bool {
+	return atomic.LoadInt32(&c.replaced) != 0
 }
 
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
@@ -238,19 +254,19 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.Transit = conn.loginParam.tgtTrans
 		conn.resp.CSG = conn.req.CSG
 		conn.resp.NSG = conn.loginParam.tgtNSG
-		conn.resp.ExpCmdSN = conn.req.CmdSN
-		conn.resp.MaxCmdSN = conn.req.CmdSN
-		if conn.req.CSG != SecurityNegotiation {
-			negoKeys, err := conn.processLoginData()
-			if err != nil {
-				return err
-			}
+		conn.resp.ISID = conn.loginParam.isid
+		conn.resp.TSIH = conn.loginParam.tsih
+		if conn.session == nil {
+			conn.resp.ExpCmdSN = conn.req.CmdSN
+			conn.resp.MaxCmdSN = conn.req.CmdSN
+		} else {
+			conn.resp.TSIH = conn.session.TSIH
 			if !conn.loginParam.keyDeclared {
-				negoKeys = loginKVDeclare(conn, negoKeys)
+				conn.loginParam.negoKeys = loginKVDeclare(conn, conn.loginParam.negoKeys)
 				conn.loginParam.keyDeclared = true
 			}
-			conn.resp.RawData = util.MarshalKVText(negoKeys)
 		}
+		conn.resp.RawData = util.MarshalKVText(conn.loginParam.negoKeys)
 		conn.txTask = nil
 	}
 
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index fc2ac2f..f95fb2b 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -21,7 +21,6 @@ import (
 	"net"
 	"os"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -48,8 +47,13 @@ var (
 	EnableStats   bool
 	CurrentHostIP string
 	IPMutex       sync.Mutex
+	// currentHostConns counts the connections of CurrentHostIP
+	currentHostConns int
 )
 
+// acceptRetryDelay is how long to wait after an error to accept a connection
+const acceptRetryDelay = 5 * time.Millisecond
+
 type ISCSITargetDriver struct {
 	SCSI                   *scsi.SCSITargetService
 	Name                   string
@@ -215,28 +219,20 @@ func (s *ISCSITargetDriver) Run(port int) error {
 				}
 			}
 			log.Error(err)
+			time.Sleep(acceptRetryDelay)
 			continue
 		}
 
-		remoteIP := strings.Split(conn.RemoteAddr().String(), ":")[0]
-
-		IPMutex.Lock()
-		if CurrentHostIP == "" {
-			CurrentHostIP = remoteIP
-		}
-		IPMutex.Unlock()
-
-		if s.blockMultipleHostLogin && remoteIP != CurrentHostIP {
+		host, admitted := s.enterHost(conn)
+		if !admitted {
 			conn.Close()
-			log.Infof("rejecting connection: %s target already connected at %s",
-				remoteIP, CurrentHostIP)
 			continue
 		}
 
 		log.Info("connection establishing at: ", conn.LocalAddr().String())
 		s.setClientStatus(true)
 
-		iscsiConn := &iscsiConnection{conn: conn,
+		iscsiConn := &iscsiConnection{conn: conn, host: host,
 			loginParam: &iscsiLoginParam{}}
 
 		iscsiConn.init()
@@ -248,6 +244,44 @@ func (s *ISCSITargetDriver) Run(port int) error {
 	return nil
 }
 
+// enterHost counts a new connection if it comes from the current host, which is
+// the first to connect. It tells whether the connection may stay.
+func (s *ISCSITargetDriver) enterHost(conn net.Conn) (string, bool) {
+	remoteIP, _, err := net.SplitHostPort(conn.RemoteAddr().String())
+	if err != nil {
+		remoteIP = conn.RemoteAddr().String()
+	}
+	IPMutex.Lock()
+	defer IPMutex.Unlock()
+	if CurrentHostIP == "" {
+		CurrentHostIP = remoteIP
+	}
+	if remoteIP == CurrentHostIP {
+		currentHostConns++
+		return remoteIP, true
+	}
+	if s.blockMultipleHostLogin {
+		log.Infof("rejecting connection: %s target already connected at %s",
+			remoteIP, CurrentHostIP)
+		return "", false
+	}
+	return "", true
+}
+
+// leaveHost is called when a connection that was counted is gone
+func (s *ISCSITargetDriver) leaveHost(host string) {
+	IPMutex.Lock()
+	defer IPMutex.Unlock()
+	if CurrentHostIP != host {
+		return
+	}
+	currentHostConns--
+	if currentHostConns <= 0 {
+		currentHostConns = 0
+		CurrentHostIP = ""
+	}
+}
+
 func (s *ISCSITargetDriver) setClientStatus(ok bool) {
 	s.isClientConnected = ok
 }
@@ -290,14 +324,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 		go func() {
 			s.rxHandler(conn)
 			if conn.state == CONN_STATE_CLOSE {
-				log.Warningf("iscsi connection[%d] closed", conn.cid)
-				conn.close()
-				IPMutex.Lock()
-				remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-				if CurrentHostIP == remoteIP {
-					CurrentHostIP = ""
-				}
-				IPMutex.Unlock()
+				s.closeConnection(conn)
 			}
 		}()
 	}
@@ -306,14 +333,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 		s.txHandler(conn)
 	}
 	if conn.state == CONN_STATE_CLOSE {
-		log.Warningf("iscsi connection[%d] closed", conn.cid)
-		conn.close()
-		IPMutex.Lock()
-		remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-		if CurrentHostIP == remoteIP {
-			CurrentHostIP = ""
-		}
-		IPMutex.Unlock()
+		s.closeConnection(conn)
 	}
 }
 
@@ -329,6 +349,13 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 	)
 	conn.readLock.Lock()
 	defer conn.readLock.Unlock()
+	if conn.state == CONN_STATE_CLOSE {
+		return
+	}
+	if conn.isReplaced() {
+		conn.state = CONN_STATE_CLOSE
+		return
+	}
 	if conn.state == CONN_STATE_SCSI {
 		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
@@ -420,6 +447,10 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			break
 		}
 	}
+	if conn.isReplaced() {
+		conn.state = CONN_STATE_CLOSE
+		return
+	}
 
 	if conn.state == CONN_STATE_SCSI || conn.state == CONN_STATE_FULL {
 		if !conn.session.admitCommand(conn.req) {
@@ -485,36 +516,51 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.isid = cmd.ISID
 	conn.loginParam.tsih = cmd.TSIH
 	conn.expCmdSN = cmd.CmdSN
-	conn.maxBurstLength = MaxBurstLength
-	conn.maxRecvDataSegmentLength = MaxRecvDataSegmentLength
-	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
 
-	if conn.loginParam.iniCSG == SecurityNegotiation {
-		if err := conn.processSecurityData(); err != nil {
-			return err
-		}
-		conn.state = CONN_STATE_LOGIN
+	lp := conn.loginParam
+	if conn.state == CONN_STATE_FREE {
+		lp.tgtCSG = lp.iniCSG
+	}
+	if lp.iniCSG != lp.tgtCSG || lp.iniCSG != SecurityNegotiation && lp.iniCSG != LoginOperationalNegotiation {
+		return fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t", lp.iniCSG, lp.iniNSG, lp.iniTrans)
+	}
+	conn.state = CONN_STATE_LOGIN
+
+	// a text too long for one request is continued by the next
+	lp.text = append(lp.text, cmd.RawData[:cmd.DataLen]...)
+	if len(lp.text) > maxLoginText {
+		return fmt.Errorf("login text of more than %d bytes", maxLoginText)
+	}
+	lp.negoKeys = nil
+	if lp.iniCont {
+		lp.tgtTrans = false
+		lp.tgtNSG = SecurityNegotiation
 		return conn.buildRespPackage(OpLoginResp, nil)
 	}
 
-	if _, err := conn.processLoginData(); err != nil {
+	var err error
+	lp.negoKeys, err = conn.processLoginData(lp.text)
+	lp.text = nil
+	if err != nil {
 		return err
 	}
-
-	if !conn.loginParam.paramInit {
-		if err := s.BindISCSISession(conn); err != nil {
+	if err = conn.nextLoginStage(); err != nil {
+		return err
+	}
+	if lp.tgtTrans && lp.tgtNSG == FullFeaturePhase {
+		if err = s.BindISCSISession(conn); err != nil {
 			conn.state = CONN_STATE_EXIT
 			return err
 		}
-		conn.loginParam.paramInit = true
-	}
-	if conn.loginParam.tgtNSG == FullFeaturePhase &&
-		conn.loginParam.tgtTrans {
+		lp.paramInit = true
 		conn.state = CONN_STATE_LOGIN_FULL
-	} else {
-		conn.state = CONN_STATE_LOGIN
+		conn.maxBurstLength = uint32(lp.sessionParam[ISCSI_PARAM_MAX_BURST].Value)
+		conn.maxRecvDataSegmentLength = uint32(lp.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value)
+		if conn.maxRecvDataSegmentLength > conn.maxBurstLength {
+			conn.maxRecvDataSegmentLength = conn.maxBurstLength
+		}
+		conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
 	}
-
 	return conn.buildRespPackage(OpLoginResp, nil)
 }
 
@@ -534,12 +580,8 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
 	}
-	IPMutex.Lock()
-	remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-	if CurrentHostIP == remoteIP {
-		CurrentHostIP = ""
-	}
-	IPMutex.Unlock()
+	// the connection is closed after the response
+	conn.state = CONN_STATE_EXIT
 	return nil
 }
 
@@ -672,6 +714,7 @@ SendRemainingData:
 			}
 			if l, err := conn.write(resp.Bytes()); err != nil {
 				log.Errorf("failed to write data to client: %v", err)
+				conn.state = CONN_STATE_CLOSE
 				return
 			} else {
 				conn.txIOState = IOSTATE_TX_INIT_AHS
@@ -789,7 +832,11 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			log.Debugf("SCSI write, R2T count: %d, unsol Count: %d, offset: %d", task.r2tCount, task.unsolCount, task.offset)
 
-			if conn.session.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
+			if req.DataLen > 0 && conn.session.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value != 1 {
+				err = fmt.Errorf("unexpected immediate data for task with tag[%v]", req.TaskTag)
+				log.Error(err)
+				return
+			} else if req.DataLen > 0 {
 				copy(scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 				task.offset += conn.req.DataLen
 			}
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 7451e5b..c71f35d 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -79,119 +79,126 @@ func stringsContains(s []string, p string) bool {
 	return false
 }
 
-func (conn *iscsiConnection) processSecurityData() error {
-	securityKV := util.ParseKVText(conn.req.RawData)
+// maxLoginText bounds the text of one login request and its continuations
+const maxLoginText = 64 * 1024
 
-	for key, val := range securityKV {
-		if key == "AuthMethod" {
-			// It can be a list.
-			vals := strings.Split(val, ",")
-			if !stringsContains(vals, "None") {
-				// TODO: respond with Reject message, rather
-				// than terminating TCP connection.
-				return fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
-			}
-			conn.loginParam.tgtNSG = LoginOperationalNegotiation
-			conn.loginParam.tgtTrans = true
-			conn.loginParam.authMethod = AuthNone
-		} else if key == "TargetName" {
-			conn.loginParam.target = val
-		} else if key == "InitiatorName" {
-			conn.loginParam.initiator = val
-		}
+// nextLoginStage moves on to the next stage if the initiator asks for it
+func (conn *iscsiConnection) nextLoginStage() error {
+	lp := conn.loginParam
+	lp.tgtTrans = false
+	lp.tgtNSG = SecurityNegotiation
+	if !lp.iniTrans {
+		return nil
 	}
-
+	switch lp.iniNSG {
+	case LoginOperationalNegotiation, FullFeaturePhase:
+	default:
+		return fmt.Errorf("reject CSG=%s,NSG=%s", lp.iniCSG, lp.iniNSG)
+	}
+	if lp.iniNSG <= lp.iniCSG {
+		return fmt.Errorf("reject CSG=%s,NSG=%s", lp.iniCSG, lp.iniNSG)
+	}
+	lp.tgtTrans = true
+	lp.tgtNSG = lp.iniNSG
+	lp.tgtCSG = lp.iniNSG
 	return nil
 }
 
-func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
-	var (
-		uintVal    uint
-		ok         bool
-		defSessKey *iscsiSessionKeys
-		negoKV     []util.KeyValue
-		kvChanges  int
-	)
-	loginKV := util.ParseKVText(conn.req.RawData)
+// processLoginData takes the keys of the text of a login request and returns
+// the answers to them.
+func (conn *iscsiConnection) processLoginData(text []byte) ([]util.KeyValue, error) {
+	var negoKV []util.KeyValue
 
-	for key, val := range loginKV {
-		// The MaxRecvDataSegmentLength of initiator
-		// is the MaxXmitDataSegmentLength of target
-		if key == "MaxRecvDataSegmentLength" {
-			defSessKey, ok = sessionKeys["MaxXmitDataSegmentLength"]
-			uintVal, ok = defSessKey.conv(val)
-			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+	for _, kv := range strings.Split(string(text), "\x00") {
+		sep := strings.Index(kv, "=")
+		if sep <= 0 {
 			continue
 		}
+		key, val := kv[:sep], kv[sep+1:]
 
-		if key == "InitiatorName" {
+		switch key {
+		case "InitiatorName":
 			conn.loginParam.initiator = val
 			continue
-		} else if key == "InitiatorAlias" {
+		case "InitiatorAlias":
 			conn.loginParam.initiatorAlias = val
 			continue
-		} else if key == "TargetName" {
+		case "TargetName":
 			conn.loginParam.target = val
 			continue
-		} else if key == "SessionType" {
-			if val == "Normal" {
+		case "SessionType":
+			switch val {
+			case "Normal":
 				conn.loginParam.sessionType = SESSION_NORMAL
-			} else {
+			case "Discovery":
 				conn.loginParam.sessionType = SESSION_DISCOVERY
+			default:
+				return negoKV, fmt.Errorf("unknown SessionType %s", val)
 			}
 			continue
-		}
-
-		defSessKey, ok = sessionKeys[key]
-		if ok {
-			uintVal, ok = defSessKey.conv(val)
-
-			//hack here
-			if key == "HeaderDigest" || key == "DataDigest" {
-				if uintVal == DIGEST_ALL {
-					uintVal = DIGEST_NONE
-				}
+		case "AuthMethod":
+			// It can be a list.
+			if !stringsContains(strings.Split(val, ","), "None") {
+				// TODO: respond with Reject message, rather
+				// than terminating TCP connection.
+				return negoKV, fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
 			}
-			if ok {
-				if defSessKey.constValue {
-					//the Negotiation Key cannot be changed! Uses Target default key
-					if uintVal != defSessKey.def {
-						kvChanges++
-					}
-					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-				} else {
-					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
-						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
-					} else {
-						// the value out of the acceptable range, Uses target default key
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-						kvChanges++
-					}
-				}
+			conn.loginParam.authMethod = AuthNone
+			negoKV = append(negoKV, util.KeyValue{key, "None"})
+			continue
+		case "MaxRecvDataSegmentLength":
+			// The MaxRecvDataSegmentLength of initiator
+			// is the MaxXmitDataSegmentLength of target
+			defSessKey := sessionKeys["MaxXmitDataSegmentLength"]
+			uintVal, ok := defSessKey.conv(val)
+			if !ok || uintVal < defSessKey.min || uintVal > defSessKey.max {
+				negoKV = append(negoKV, util.KeyValue{key, "Reject"})
+				continue
 			}
-		} else {
-			//Unknown Key, reject it
-			return negoKV, fmt.Errorf("Unknowen Nego KV [%s:%s]", key, val)
+			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+			continue
 		}
-	}
 
-	if kvChanges == 0 {
-		if (conn.loginParam.iniNSG == FullFeaturePhase) && conn.loginParam.iniTrans {
-			conn.loginParam.tgtNSG = FullFeaturePhase
-			conn.loginParam.tgtTrans = true
+		defSessKey, ok := sessionKeys[key]
+		if !ok || defSessKey.idx >= ISCSI_PARAM_FIRST_LOCAL {
+			negoKV = append(negoKV, util.KeyValue{key, "NotUnderstood"})
+			continue
+		}
+		if uintVal, ok := defSessKey.negotiate(val); ok {
+			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+			negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
 		} else {
-			//Currently, we just reject these kind of cases
-			return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
-				conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
+			negoKV = append(negoKV, util.KeyValue{key, "Reject"})
 		}
-	} else {
-		conn.loginParam.tgtNSG = FullFeaturePhase
-		conn.loginParam.tgtTrans = true
 	}
 	return negoKV, nil
 }
 
+// negotiate returns the outcome for the value, or values, that are offered
+func (k *iscsiSessionKeys) negotiate(offer string) (uint, bool) {
+	switch k.idx {
+	case ISCSI_PARAM_HDRDGST_EN, ISCSI_PARAM_DATADGST_EN:
+		// no digest is computed
+		return DIGEST_NONE, stringsContains(strings.Split(offer, ","), "None")
+	}
+	val, ok := k.conv(offer)
+	if !ok || val < k.min || val > k.max {
+		return k.def, false
+	}
+	switch k.idx {
+	case ISCSI_PARAM_INITIAL_R2T_EN, ISCSI_PARAM_PDU_INORDER_EN, ISCSI_PARAM_DATASEQ_INORDER_EN,
+		ISCSI_PARAM_DEFAULTTIME2WAIT:
+		if val < k.def {
+			return k.def, true
+		}
+	default:
+		if val > k.def {
+			return k.def, true
+		}
+	}
+	return val, true
+}
+
 type iscsiLoginParam struct {
 	paramInit bool
 
@@ -208,6 +215,10 @@ type iscsiLoginParam struct {
 	sessionType  int
 	sessionParam ISCSISessionParamList
 	keyDeclared  bool
+	// text of the request so far, as it may be continued
+	text []byte
+	// negoKeys are the answers to the request
+	negoKeys []util.KeyValue
 
 	initiator      string
 	initiatorAlias string
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 1a98057..d351f11 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -154,7 +154,7 @@ func digestKeyInConv(value uint) string {
 }
 
 func numberKeyConv(value string) (uint, bool) {
-	v, err := strconv.Atoi(value)
+	v, err := strconv.ParseUint(value, 0, 32)
 	if err == nil {
 		return uint(v), true
 	}
@@ -200,9 +200,9 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_BURST
 	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, true, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_PDU_INORDER_EN
-	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DATASEQ_INORDER_EN
-	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_ERL
 	"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 0, 0, 2, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_IFMARKER_EN
@@ -260,6 +260,7 @@ type ISCSISession struct {
 	SessionParam ISCSISessionParamList
 	Info         string
 	Rdma         int
+	releaseOnce  sync.Once
 }
 
 type taskQueue []*iscsiTask
@@ -291,155 +292,164 @@ func (tq *taskQueue) RemoveByTag(tag uint32) *iscsiTask {
 	return nil
 }
 
-func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, isid uint64, tsih uint16, tpgt uint16) *ISCSISession {
-	var (
-		tgt  *ISCSITarget
-		sess *ISCSISession
-		ok   bool
-	)
-	tgt, ok = s.iSCSITargets[tgtName]
-	if !ok {
-		return nil
-	}
-	tgt.SessionsRWMutex.RLock()
-	defer tgt.SessionsRWMutex.RUnlock()
-	sess, ok = tgt.Sessions[tsih]
-	if !ok {
-		return nil
-	}
-	if (sess.ISID == isid) && (sess.TPGT == tpgt) {
-		return sess
+// LookupISCSISession finds the session between an initiator port and a target
+// portal group, any one if tsih is ISCSI_UNSPEC_TSIH. The caller holds the lock of the
+// sessions of the target.
+func (tgt *ISCSITarget) LookupISCSISession(iniName string, isid uint64, tsih uint16, tpgt uint16) *ISCSISession {
+	for _, sess := range tgt.Sessions {
+		if sess.Initiator == iniName && sess.ISID == isid && sess.TPGT == tpgt &&
+			(tsih == ISCSI_UNSPEC_TSIH || sess.TSIH == tsih) {
+			return sess
+		}
 	}
 	return nil
 }
 
-func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
-	target := sess.Target
-	target.SessionsRWMutex.Lock()
-	defer target.SessionsRWMutex.Unlock()
-	delete(target.Sessions, sess.TSIH)
-	scsi.RemoveITNexus(sess.Target.SCSITarget, sess.ITNexus)
+// releaseSession gives back all that is held for a session
+func (s *ISCSITargetDriver) releaseSession(sess *ISCSISession) {
+	sess.releaseOnce.Do(func() {
+		if target := sess.Target; target != nil {
+			if sess.ITNexus != nil {
+				scsi.RemoveITNexus(target.SCSITarget, sess.ITNexus)
+			}
+			target.SessionsRWMutex.Lock()
+			if target.Sessions[sess.TSIH] == sess {
+				delete(target.Sessions, sess.TSIH)
+			}
+			target.SessionsRWMutex.Unlock()
+		}
+		s.ReleaseTSIH(sess.TSIH)
+	})
+}
+
+// closeConnection closes a connection and ends its session with the last one
+func (s *ISCSITargetDriver) closeConnection(conn *iscsiConnection) {
+	conn.closeOnce.Do(func() {
+		log.Warningf("iscsi connection[%d] closed", conn.cid)
+		conn.close()
+		if sess := conn.session; sess != nil && sess.removeConnection(conn) {
+			s.releaseSession(sess)
+		}
+		if conn.host != "" {
+			s.leaveHost(conn.host)
+		}
+	})
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	var (
 		target    *ISCSITarget
 		existSess *ISCSISession
-		existConn *iscsiConnection
 		newSess   *ISCSISession
 		tpgt      uint16
 		err       error
 	)
 
 	//Find TPGT and Target ID
+	if conn.loginParam.initiator == "" {
+		return fmt.Errorf("initiator err, no initiator name")
+	}
 	if conn.loginParam.sessionType == SESSION_DISCOVERY {
 		conn.tid = 0xffff
-	} else {
-		for _, t := range s.iSCSITargets {
-			if t.SCSITarget.Name == conn.loginParam.target {
-				target = t
-				break
-			}
+		if conn.loginParam.tsih != ISCSI_UNSPEC_TSIH {
+			return fmt.Errorf("initiator err, invalid request")
 		}
-		if target == nil {
-			return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
-		}
-
-		tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
+		newSess, err = s.NewISCSISession(conn, nil)
 		if err != nil {
 			return err
 		}
-		conn.loginParam.tpgt = tpgt
-		conn.tid = target.TID
+		log.Infof("Discovery request received from initiator: %v, Session type: %s, ISID: 0x%x",
+			conn.loginParam.initiator, "Discovery", conn.loginParam.isid)
+		conn.session = newSess
+		return nil
 	}
 
-	existSess = s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
-		conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
-	if existSess != nil {
-		existConn = existSess.LookupConnection(conn.cid)
+	for _, t := range s.iSCSITargets {
+		if t.SCSITarget.Name == conn.loginParam.target {
+			target = t
+			break
+		}
 	}
-
-	if conn.loginParam.sessionType == SESSION_DISCOVERY &&
-		conn.loginParam.tsih != ISCSI_UNSPEC_TSIH &&
-		existSess != nil {
-		return fmt.Errorf("initiator err, invalid request")
+	if target == nil {
+		return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
 	}
 
-	if existSess == nil && conn.loginParam.tsih != 0 &&
-		existSess.TSIH != conn.loginParam.tsih {
-		return fmt.Errorf("initiator err, no session")
+	tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
+	if err != nil {
+		return err
 	}
+	conn.loginParam.tpgt = tpgt
+	conn.tid = target.TID
 
-	if existSess == nil {
-		newSess, err = s.NewISCSISession(conn)
-		if err != nil {
-			return err
-		}
+	if conn.loginParam.tsih != ISCSI_UNSPEC_TSIH {
+		return s.reinstateConnection(target, conn)
+	}
 
-		if newSess.SessionType == SESSION_NORMAL {
-			log.Infof("Login request received from initiator: %v, Session type: %s, Target name:%v, ISID: 0x%x",
-				conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
-			//register normal session
-			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
-			newSess.ITNexus = itnexus
-			conn.session = newSess
-
-			newSess.Target.SessionsRWMutex.Lock()
-			newSess.Target.Sessions[newSess.TSIH] = newSess
-			newSess.Target.SessionsRWMutex.Unlock()
-		} else {
-			log.Infof("Discovery request received from initiator: %v, Session type: %s, ISID: 0x%x",
-				conn.loginParam.initiator, "Discovery", conn.loginParam.isid)
-			conn.session = newSess
-		}
-	} else {
-		if conn.loginParam.tsih == ISCSI_UNSPEC_TSIH {
-			log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
-				conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-			newSess, err = s.ReInstatement(existConn.session, conn)
-			if err != nil {
-				return err
-			}
+	newSess, err = s.NewISCSISession(conn, target)
+	if err != nil {
+		return err
+	}
+	itnexusName := GeniSCSIITNexusID(newSess)
+	newSess.ITNexus = &api.ITNexus{uuid.NewV5(uuid.NamespaceOID, itnexusName), itnexusName}
 
-			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
-			newSess.ITNexus = itnexus
-			conn.session = newSess
+	// the one session of an initiator port with this portal group is replaced
+	target.SessionsRWMutex.Lock()
+	existSess = target.LookupISCSISession(conn.loginParam.initiator,
+		conn.loginParam.isid, ISCSI_UNSPEC_TSIH, tpgt)
+	if existSess != nil {
+		delete(target.Sessions, existSess.TSIH)
+	}
+	target.Sessions[newSess.TSIH] = newSess
+	target.SessionsRWMutex.Unlock()
 
-			newSess.Target.SessionsRWMutex.Lock()
-			newSess.Target.Sessions[newSess.TSIH] = newSess
-			newSess.Target.SessionsRWMutex.Unlock()
-		} else {
-			if existConn != nil {
-				log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
-					conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-				existConn.ReInstatement(conn)
-			}
+	if existSess != nil {
+		log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
+			conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
+		for _, tmpConn := range existSess.copyConnections() {
+			tmpConn.shutdown()
 		}
+		s.releaseSession(existSess)
+	} else {
+		log.Infof("Login request received from initiator: %v, Session type: %s, Target name:%v, ISID: 0x%x",
+			conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
 	}
-
+	scsi.AddITNexus(target.SCSITarget, newSess.ITNexus)
+	conn.session = newSess
 	return nil
 }
 
-// New creates a new session.
-func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISession, error) {
-	var (
-		target *ISCSITarget
-		tsih   uint16
-	)
-
-	for _, t := range s.iSCSITargets {
-		if t.TID == conn.tid {
-			target = t
-			break
-		}
+// reinstateConnection makes a connection take the place of the one that its
+// session already has with its CID
+func (s *ISCSITargetDriver) reinstateConnection(target *ISCSITarget, conn *iscsiConnection) error {
+	var existConn *iscsiConnection
+	target.SessionsRWMutex.RLock()
+	sess := target.LookupISCSISession(conn.loginParam.initiator,
+		conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
+	if sess != nil {
+		existConn = sess.replaceConnection(conn)
+	}
+	target.SessionsRWMutex.RUnlock()
+	if sess == nil {
+		return fmt.Errorf("initiator err, no session")
 	}
-	if target == nil && conn.tid != 0xffff {
-		return nil, fmt.Errorf("No target found with tid(%d)", conn.tid)
+	if existConn == nil {
+		return fmt.Errorf("initiator err, no connection %d to reinstate", conn.cid)
 	}
+	log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
+		conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
+	existConn.shutdown()
+	// the unfinished commands of the connection end with it
+	sess.PendingTasksMutex.Lock()
+	sess.PendingTasks = taskQueue{}
+	sess.HeldCommands = map[uint32]*ISCSICommand{}
+	sess.PendingTasksMutex.Unlock()
+	conn.session = sess
+	return nil
+}
 
-	tsih = s.AllocTSIH()
+// New creates a new session.
+func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection, target *ISCSITarget) (*ISCSISession, error) {
+	tsih := s.AllocTSIH()
 	if tsih == ISCSI_UNSPEC_TSIH {
 		return nil, fmt.Errorf("TSIH Pool exhausted tid(%d)", conn.tid)
 	}
@@ -533,19 +543,37 @@ func (sess *ISCSISession) LookupConnection(cid uint16) *iscsiConnection {
 	return conn
 }
 
-func (s *ISCSITargetDriver) ReInstatement(existSess *ISCSISession, conn *iscsiConnection) (*ISCSISession, error) {
-	newSess, err := s.NewISCSISession(conn)
-	if err != nil {
-		return nil, err
+func (sess *ISCSISession) copyConnections() []*iscsiConnection {
+	var conns []*iscsiConnection
+	sess.ConnectionsRWMutex.RLock()
+	defer sess.ConnectionsRWMutex.RUnlock()
+	for _, conn := range sess.Connections {
+		conns = append(conns, conn)
 	}
-	newSess.ExpCmdSN = existSess.ExpCmdSN
-	newSess.MaxCmdSN = existSess.MaxCmdSN + 1
-	s.UnBindISCSISession(existSess)
-	for _, tmpConn := range existSess.Connections {
-		tmpConn.close()
+	return conns
+}
+
+// replaceConnection puts a connection in the place of the one with its CID and
+// returns that, or nil if the session has none.
+func (sess *ISCSISession) replaceConnection(conn *iscsiConnection) *iscsiConnection {
+	sess.ConnectionsRWMutex.Lock()
+	defer sess.ConnectionsRWMutex.Unlock()
+	existConn := sess.Connections[conn.cid]
+	if existConn != nil {
+		sess.Connections[conn.cid] = conn
+	}
+	return existConn
+}
+
+// removeConnection tells whether the connection was the last of the session
+func (sess *ISCSISession) removeConnection(conn *iscsiConnection) bool {
+	sess.ConnectionsRWMutex.Lock()
+	defer sess.ConnectionsRWMutex.Unlock()
+	if sess.Connections[conn.cid] != conn {
+		return false
 	}
-	existSess.Connections = map[uint16]*iscsiConnection{}
-	return newSess, nil
+	delete(sess.Connections, conn.cid)
+	return len(sess.Connections) == 0
 }
 
 /*
-- 
2.43.0


From efc676376c5e18e543be117beec3dfd9a5db2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 19/35] fix: guard the targets and portals of the driver

---
 pkg/port/iscsit/iscsid.go  | 15 ++++++++++++++-
 pkg/port/iscsit/session.go | 24 +++++++++++++-----------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index f95fb2b..bbec597 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -58,6 +58,7 @@ type ISCSITargetDriver struct {
 	SCSI                   *scsi.SCSITargetService
 	Name                   string
 	iSCSITargets           map[string]*ISCSITarget
+	targetsMutex           sync.RWMutex // guards iSCSITargets and the portals of the targets
 	TSIHPool               map[uint16]bool
 	TSIHPoolMutex          sync.Mutex
 	isClientConnected      bool
@@ -113,6 +114,8 @@ func (s *ISCSITargetDriver) ReleaseTSIH(tsih uint16) {
 }
 
 func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config) error {
+	s.targetsMutex.Lock()
+	defer s.targetsMutex.Unlock()
 	if _, ok := s.iSCSITargets[tgtName]; ok {
 		return fmt.Errorf("target name has been existed")
 	}
@@ -131,7 +134,7 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
 		for _, portalID := range portalIDArrary {
 			portal := configInfo.ISCSIPortals[portalID]
-			s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+			s.addiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
 		}
 	}
 	return nil
@@ -150,6 +153,12 @@ func (s *ISCSITargetDriver) RereadTargetLUNMap() {
 }
 
 func (s *ISCSITargetDriver) AddiSCSIPortal(tgtName string, tpgt uint16, portal string) error {
+	s.targetsMutex.Lock()
+	defer s.targetsMutex.Unlock()
+	return s.addiSCSIPortal(tgtName, tpgt, portal)
+}
+
+func (s *ISCSITargetDriver) addiSCSIPortal(tgtName string, tpgt uint16, portal string) error {
 	var (
 		ok       bool
 		target   *ISCSITarget
@@ -180,6 +189,8 @@ func (s *ISCSITargetDriver) HasPortal(tgtName string, tpgt uint16, portal string
 		target   *ISCSITarget
 		tpgtInfo *iSCSITPGT
 	)
+	s.targetsMutex.RLock()
+	defer s.targetsMutex.RUnlock()
 
 	if target, ok = s.iSCSITargets[tgtName]; !ok {
 		return false
@@ -591,6 +602,7 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 	keys := util.ParseKVText(cmd.RawData)
 	if st, ok := keys["SendTargets"]; ok {
 		if st == "All" {
+			s.targetsMutex.RLock()
 			for name, tgt := range s.iSCSITargets {
 				log.Debugf("iscsi target: %v", name)
 				//log.Debugf("iscsi target portals: %v", tgt.Portals)
@@ -619,6 +631,7 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 					}
 				}
 			}
+			s.targetsMutex.RUnlock()
 		}
 	}
 
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index d351f11..f5f5f10 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -364,17 +364,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		return nil
 	}
 
-	for _, t := range s.iSCSITargets {
-		if t.SCSITarget.Name == conn.loginParam.target {
-			target = t
-			break
-		}
-	}
-	if target == nil {
-		return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
-	}
-
-	tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
+	target, tpgt, err = s.findTarget(conn.loginParam.target, conn.conn.LocalAddr().String())
 	if err != nil {
 		return err
 	}
@@ -418,6 +408,18 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	return nil
 }
 
+// findTarget finds the target and its group that has the portal
+func (s *ISCSITargetDriver) findTarget(name, portal string) (*ISCSITarget, uint16, error) {
+	s.targetsMutex.RLock()
+	defer s.targetsMutex.RUnlock()
+	target, ok := s.iSCSITargets[name]
+	if !ok {
+		return nil, 0, fmt.Errorf("No target found with name(%s)", name)
+	}
+	tpgt, err := target.FindTPG(portal)
+	return target, tpgt, err
+}
+
 // reinstateConnection makes a connection take the place of the one that its
 // session already has with its CID
 func (s *ISCSITargetDriver) reinstateConnection(target *ISCSITarget, conn *iscsiConnection) error {
-- 
2.43.0


From 999164d27e738f5535a7c71f0d03baac4e1b3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:38 +0000
Subject: [PATCH 20/35] fix: save the configuration atomically, a failed load
 is no configuration

---
 pkg/config/config.go | 61 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index a21d3f7..fe06f38 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -22,6 +22,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/mitchellh/go-homedir"
 )
@@ -98,6 +99,7 @@ const (
 var (
 	configDir = os.Getenv("GOSTOR_CONFIG")
 	config    *Config
+	saveMutex sync.Mutex
 )
 
 type BackendStorage struct {
@@ -147,31 +149,30 @@ func Load(configDir string) (*Config, error) {
 	}
 
 	filename := filepath.Join(configDir, ConfigFileName)
-	config = &Config{
+	loaded := &Config{
 		ISCSITargets: make(map[string]ISCSITarget),
 	}
 
 	// Try happy path first - latest config file
 	if _, err := os.Stat(filename); err != nil {
 		if os.IsNotExist(err) {
+			config = loaded
 			return config, nil
 		}
 		// if file is there but we can't stat it for any reason other
 		// than it doesn't exist then stop
-		return config, fmt.Errorf("%s - %v", filename, err)
+		return nil, fmt.Errorf("%s - %v", filename, err)
 	}
 	file, err := os.Open(filename)
 	if err != nil {
-		return config, fmt.Errorf("%s - %v", filename, err)
+		return nil, fmt.Errorf("%s - %v", filename, err)
 	}
 	defer file.Close()
-	if err = json.NewDecoder(file).Decode(config); err != nil {
-		return config, err
+	if err = json.NewDecoder(file).Decode(loaded); err != nil {
+		return nil, fmt.Errorf("%s - %v", filename, err)
 	}
-	if err != nil {
-		err = fmt.Errorf("%s - %v", filename, err)
-	}
-	return config, err
+	config = loaded
+	return config, nil
 }
 
 // Save encodes and writes out all the authorization information
@@ -180,18 +181,52 @@ func (config *Config) Save(filename string) error {
 		return fmt.Errorf("Can't save config with empty filename")
 	}
 
-	if err := os.MkdirAll(filepath.Dir(filename), 0700); err != nil {
+	dir := filepath.Dir(filename)
+	if err := os.MkdirAll(dir, 0700); err != nil {
+		return err
+	}
+	data, err := json.MarshalIndent(config, "", "\t")
+	if err != nil {
+		return err
+	}
+	saveMutex.Lock()
+	defer saveMutex.Unlock()
+	// the file is replaced once the new one is complete and on the disk
+	tmpname := filename + ".tmp"
+	if err = writeSync(tmpname, data); err == nil {
+		err = os.Rename(tmpname, filename)
+	}
+	if err != nil {
+		os.Remove(tmpname)
 		return err
 	}
+	return syncDir(dir)
+}
+
+// writeSync writes a file and returns once its data is on the disk
+func writeSync(filename string, data []byte) error {
 	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-	data, err := json.MarshalIndent(config, "", "\t")
+	if _, err = f.Write(data); err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
+// syncDir returns once the entries of a directory are on the disk
+func syncDir(dir string) error {
+	d, err := os.Open(dir)
 	if err != nil {
 		return err
 	}
-	_, err = f.Write(data)
+	err = d.Sync()
+	if cerr := d.Close(); err == nil {
+		err = cerr
+	}
 	return err
 }
-- 
2.43.0


From 43ee36a504efa6d9f075d6a3eba5c87fc6cb60fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:38 +0000
Subject: [PATCH 21/35] fix: find a portal by its id

---
 pkg/port/iscsit/iscsid.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index bbec597..9d83505 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -133,8 +133,12 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
 		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
 		for _, portalID := range portalIDArrary {
-			portal := configInfo.ISCSIPortals[portalID]
-			s.addiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+			for _, portal := range configInfo.ISCSIPortals {
+				if uint64(portal.ID) == portalID {
+					s.addiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+					break
+				}
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From b526976a68196d31eb7c3f623488b6789f450f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 22/35] fix: give the command queue length a parameter slot of
 its own

---
 pkg/port/iscsit/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index f5f5f10..9235bef 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -71,7 +71,7 @@ const (
 	/* "local" parmas, never sent to the initiator */
 	ISCSI_PARAM_FIRST_LOCAL
 	ISCSI_PARAM_MAX_XMIT_DLENGTH = ISCSI_PARAM_FIRST_LOCAL
-	ISCSI_PARAM_MAX_QUEUE_CMD
+	ISCSI_PARAM_MAX_QUEUE_CMD    = iota - 1
 	/* must always be last */
 	ISCSI_PARAM_MAX
 )
-- 
2.43.0


From d4394bb5e0288846c38c217ba213167f93d33e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 23/35] fix: limit the returned ping data to what the initiator
 can take

---
 pkg/port/iscsit/conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 9bea754..d64ba0d 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -238,8 +238,14 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
 		if oc == OpNoopIn {
-			// return the ping data
-			conn.resp.RawData = conn.req.RawData[:conn.req.DataLen]
+			// return as much of the ping data as the initiator can take
+			data := conn.req.RawData[:conn.req.DataLen]
+			if lp := conn.loginParam; lp != nil && len(lp.sessionParam) > ISCSI_PARAM_MAX_XMIT_DLENGTH {
+				if max := lp.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value; uint(len(data)) > uint(max) {
+					data = data[:max]
+				}
+			}
+			conn.resp.RawData = data
 		} else {
 			conn.resp.Result = ISCSI_REJECT_CMD_NOT_SUPPORTED
 			conn.resp.RawData = conn.req.RawHeader
-- 
2.43.0


From 8440ee6bbeb242c0ec4a6aa6e9fe953daa156d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 24/35] fix: split a discovery answer that is longer than the
 initiator can take

---
 pkg/port/iscsit/cmd.go    | 11 +++++++++--
 pkg/port/iscsit/conn.go   |  2 ++
 pkg/port/iscsit/iscsid.go | 17 +++++++++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 6d00fd9..46db8fe 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -108,6 +108,8 @@ type ISCSICommand struct {
 
 	// Connection ID.
 	ConnID uint16
+	// Target transfer tag of a text request.
+	TransferTag uint32
 	// Command serial number.
 	CmdSN uint32
 	// Expected status serial.
@@ -285,6 +287,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		m.ISID = uint64(ParseUint(data[8:14]))
 		m.TSIH = uint16(ParseUint(data[14:16]))
 		m.ConnID = uint16(ParseUint(data[20:22]))
+		m.TransferTag = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 	case OpLoginResp:
@@ -423,8 +426,12 @@ func (m *ISCSICommand) textRespBytes() []byte {
 		buf.WriteByte(0x00)
 	}
 	buf.Write(util.MarshalUint64(uint64(m.TaskTag))[4:])
-	for i := 0; i < 4; i++ {
-		buf.WriteByte(0xff)
+	if m.Final {
+		for i := 0; i < 4; i++ {
+			buf.WriteByte(0xff)
+		}
+	} else {
+		buf.Write(util.MarshalUint64(uint64(m.TaskTag))[4:])
 	}
 	buf.Write(util.MarshalUint64(uint64(m.StatSN))[4:])
 	buf.Write(util.MarshalUint64(uint64(m.ExpCmdSN))[4:])
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index d64ba0d..49cad2d 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -86,6 +86,8 @@ type iscsiConnection struct {
 
 	rxTask *iscsiTask
 	txTask *iscsiTask
+	// textRest is the part of a text answer that is still to be asked for
+	textRest []byte
 
 	readLock *sync.RWMutex
 
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 9d83505..78f1cac 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -639,9 +639,22 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		}
 	}
 
+	// the initiator asks for the rest of the answer by its transfer tag
+	data := conn.textRest
+	if cmd.TransferTag != cmd.TaskTag || len(data) == 0 {
+		data = util.MarshalKVText(result)
+	}
+	conn.textRest = nil
+	if lp := conn.loginParam; lp != nil && len(lp.sessionParam) > ISCSI_PARAM_MAX_XMIT_DLENGTH {
+		if max := lp.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value; uint(len(data)) > uint(max) {
+			data, conn.textRest = data[:max:max], data[max:]
+		}
+	}
+
 	conn.resp = &ISCSICommand{
 		OpCode:   OpTextResp,
-		Final:    true,
+		Final:    len(conn.textRest) == 0,
+		Cont:     len(conn.textRest) != 0,
 		NSG:      FullFeaturePhase,
 		StatSN:   conn.statSN,
 		TaskTag:  cmd.TaskTag,
@@ -653,7 +666,7 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
 	}
 	conn.statSN += 1
-	conn.resp.RawData = util.MarshalKVText(result)
+	conn.resp.RawData = data
 	return nil
 }
 
-- 
2.43.0


From d4989cd253fb9370cb4825f3e5ab52a0728c31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 25/35] fix: a task set or unit is reset up to the request, not
 beyond it

---
 pkg/port/iscsit/iscsid.go  | 4 ++--
 pkg/port/iscsit/session.go | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 78f1cac..e7c73b8 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -1011,10 +1011,10 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 				task.result = ISCSI_TMF_RSP_COMPLETE
 			}
 		case ISCSI_TM_FUNC_ABORT_TASK_SET:
-			sess.abortTasks(func(c *ISCSICommand) bool { return c.LUN == cmd.LUN })
+			sess.abortTasks(cmd.inTaskSet)
 			task.result = ISCSI_TMF_RSP_COMPLETE
 		case ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
-			sess.abortTasks(func(c *ISCSICommand) bool { return c.LUN == cmd.LUN })
+			sess.abortTasks(cmd.inTaskSet)
 			s.SCSI.ResetLU(sess.Target.SCSITarget, cmd.LUN)
 			task.result = ISCSI_TMF_RSP_COMPLETE
 		case ISCSI_TM_FUNC_CLEAR_ACA:
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 9235bef..cf4850a 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -511,6 +511,15 @@ func (sess *ISCSISession) nextHeldCommand() *ISCSICommand {
 	return cmd
 }
 
+// inTaskSet tells whether a command is one of those that the task management
+// request is about: on its LUN and, in the order of the numbers, before it.
+func (m *ISCSICommand) inTaskSet(cmd *ISCSICommand) bool {
+	if cmd.LUN != m.LUN {
+		return false
+	}
+	return int32(cmd.CmdSN-m.CmdSN) < 0 || cmd.Immediate && cmd.CmdSN == m.CmdSN
+}
+
 // abortTasks drops the tasks of this session that still wait for data or for
 // their turn and that match; it returns how many there were. No response is
 // sent for an aborted task.
-- 
2.43.0


From 2959710fa943e05dd5d826cd6046b01a455b2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 26/35] fix: refuse commands to LUN 0 while no unit is mapped
 there

---
 pkg/scsi/scsi.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index a3f98ea..f620ebb 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -120,7 +120,7 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 
 	if scmd.Device == nil {
 		scmd.Device = target.LUN0
-		if lun != 0 {
+		if lun != 0 || !servedWithoutUnit(scmd.SCB[0]) {
 			BuildSenseData(scmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
 			scmd.Result = api.SAMStatCheckCondition.Stat
 			log.Warnf("%v", api.SAMStatCheckCondition.Err)
@@ -142,6 +142,16 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 	return nil
 }
 
+// servedWithoutUnit tells whether LUN 0 serves the command while no unit is
+// mapped there
+func servedWithoutUnit(opcode byte) bool {
+	switch api.SCSICommandType(opcode) {
+	case api.INQUIRY, api.REQUEST_SENSE, api.REPORT_LUNS, api.TEST_UNIT_READY:
+		return true
+	}
+	return false
+}
+
 // SCSIServiceAction SCSI service action
 type SCSIServiceAction struct {
 	ServiceAction      uint8
-- 
2.43.0


From 6f7ec79c179577b9ebc46624ec8aa51e264bbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 27/35] fix: release the reservations of a nexus on units that
 were unmapped meanwhile

---
 pkg/scsi/scsilumap.go | 16 ++++++++++++++++
 pkg/scsi/target.go    |  5 +++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index d977417..a65cc12 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -97,6 +97,22 @@ func copyDevices(target *api.SCSITarget) api.LUNMap {
 	return devices
 }
 
+// knownDevices returns every logical unit there is, mapped or not.
+func knownDevices() []*api.SCSILu {
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
+	var devices []*api.SCSILu
+	for _, lu := range globalSCSILUMap.AllDevices {
+		devices = append(devices, lu)
+	}
+	for _, lunMap := range globalSCSILUMap.TargetsLUNMap {
+		for _, lu := range lunMap {
+			devices = append(devices, lu)
+		}
+	}
+	return devices
+}
+
 func GetTargetBSMap(tgtName string) (api.RemoteBackingStore, error) {
 	globalSCSILUMap.mutex.RLock()
 	defer globalSCSILUMap.mutex.RUnlock()
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index b47756a..7e3ec5a 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -99,8 +99,9 @@ func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	target.ITNexusMutex.Lock()
 	defer target.ITNexusMutex.Unlock()
 	delete(target.ITNexus, itnexus.ID)
-	// a reservation does not outlive its I_T nexus
-	for _, lu := range copyDevices(target) {
+	// a reservation does not outlive its I_T nexus, nor does one of a unit
+	// that is no longer mapped here
+	for _, lu := range knownDevices() {
 		deviceRelease(lu, itnexus.ID, false)
 	}
 	deviceRelease(target.LUN0, itnexus.ID, false)
-- 
2.43.0


From 2703ae258b6d5fca4558dce0c7dae72234a1322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 28/35] fix: refuse to save a configuration with strings that
 JSON cannot hold

---
 pkg/config/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index fe06f38..27b33ce 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -22,6 +22,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"reflect"
 	"sync"
 
 	"github.com/mitchellh/go-homedir"
@@ -189,6 +190,14 @@ func (config *Config) Save(filename string) error {
 	if err != nil {
 		return err
 	}
+	// a string which is not valid UTF-8 would be loaded as another one
+	saved := &Config{}
+	if err = json.Unmarshal(data, saved); err != nil {
+		return err
+	}
+	if !reflect.DeepEqual(config, saved) {
+		return fmt.Errorf("%s - the config has strings which are not valid UTF-8", filename)
+	}
 	saveMutex.Lock()
 	defer saveMutex.Unlock()
 	// the file is replaced once the new one is complete and on the disk
-- 
2.43.0


From d90016ca0d43ed09493667111a3588caaa38f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 29/35] fix: a load returns the configuration it read, not that
 of a concurrent load

---
 pkg/config/config.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 27b33ce..473ab03 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -101,6 +101,9 @@ var (
 	configDir = os.Getenv("GOSTOR_CONFIG")
 	config    *Config
 	saveMutex sync.Mutex
+
+	// configMutex guards config
+	configMutex sync.RWMutex
 )
 
 type BackendStorage struct {
@@ -140,9 +143,19 @@ func ConfigDir() string {
 
 }
 func GetConfig() *Config {
+	configMutex.RLock()
+	defer configMutex.RUnlock()
 	return config
 }
 
+// setConfig makes a loaded configuration the current one
+func setConfig(loaded *Config) *Config {
+	configMutex.Lock()
+	defer configMutex.Unlock()
+	config = loaded
+	return loaded
+}
+
 // Load reads the configuration files in the given directory and return values.
 func Load(configDir string) (*Config, error) {
 	if configDir == "" {
@@ -157,8 +170,7 @@ func Load(configDir string) (*Config, error) {
 	// Try happy path first - latest config file
 	if _, err := os.Stat(filename); err != nil {
 		if os.IsNotExist(err) {
-			config = loaded
-			return config, nil
+			return setConfig(loaded), nil
 		}
 		// if file is there but we can't stat it for any reason other
 		// than it doesn't exist then stop
@@ -172,8 +184,7 @@ func Load(configDir string) (*Config, error) {
 	if err = json.NewDecoder(file).Decode(loaded); err != nil {
 		return nil, fmt.Errorf("%s - %v", filename, err)
 	}
-	config = loaded
-	return config, nil
+	return setConfig(loaded), nil
 }
 
 // Save encodes and writes out all the authorization information
-- 
2.43.0


From 0ca1c63d60e058140c06c99c585d1545f7f2c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 30/35] fix: MODE SENSE reports the present number of blocks
 after a resize

---
 pkg/scsi/sbc.go | 10 ++++++++--
 pkg/scsi/spc.go |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 629b2e3..64b6e6c 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -117,12 +117,18 @@ func (sbc SBCSCSIDeviceProtocol) InitLu(lu *api.SCSILu) error {
 	// Informational Exceptions Control page
 	pages = append(pages, api.ModePage{0x1c, 0, 10, []byte{8, 0, 0, 0, 0, 0, 0, 0, 0, 0}})
 	lu.ModePages = pages
+	lu.ModeBlockDescriptor = modeBlockDescriptor(lu)
+	return nil
+}
+
+// modeBlockDescriptor returns the mode parameter block descriptor for the
+// present size of the unit
+func modeBlockDescriptor(lu *api.SCSILu) []byte {
 	mbd := util.MarshalUint32(uint32(0xffffffff))
 	if size := lu.Size >> lu.BlockShift; size>>32 == 0 {
 		mbd = util.MarshalUint32(uint32(size))
 	}
-	lu.ModeBlockDescriptor = append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
-	return nil
+	return append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
 }
 
 func (sbc SBCSCSIDeviceProtocol) ConfigLu(lu *api.SCSILu) error {
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 84e69df..c2205ef 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -577,7 +577,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 	if dbd == 0 {
-		data = append(data, cmd.Device.ModeBlockDescriptor...)
+		data = append(data, modeBlockDescriptor(cmd.Device)...)
 	}
 	if pcode == 0x3f {
 		for _, pg := range cmd.Device.ModePages {
-- 
2.43.0


From 856fbc49b3efdb0a8400a88c8d0137375817f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 31/35] fix: READ CAPACITY of a unit without a block reports no
 medium

---
 pkg/scsi/sbc.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 64b6e6c..792e966 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -597,6 +597,13 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
+	if size == 0 {
+		// there is no last block to report
+		key = NOT_READY
+		asc = ASC_MEDIUM_NOT_PRESENT
+		goto sense
+	}
+
 	// data[0] = (size >> 32) ? __cpu_to_be32(0xffffffff) : __cpu_to_be32(size - 1);
 	if size>>32 != 0 {
 		data = util.MarshalUint32(uint32(0xffffffff))
@@ -704,6 +711,11 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		allocationLength uint32
 		data             = make([]byte, 32)
 	)
+	if size == 0 {
+		// there is no last block to report
+		BuildSenseData(cmd, NOT_READY, ASC_MEDIUM_NOT_PRESENT)
+		return api.SAMStatCheckCondition
+	}
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
 	copy(data, util.MarshalUint64(uint64(size-1)))
 	copy(data[8:], util.MarshalUint32(uint32(1<<bshift)))
-- 
2.43.0


From 88cb7a8668f1ae5195c1e48cd864e5de6b454a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 32/35] fix: PRE-FETCH of 4 GiB and more is served

---
 pkg/scsi/sbc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 792e966..2f4ce01 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -477,7 +477,11 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 		return sbcWriteSame(cmd, lba, tl)
 	}
 	if uint64(tl)<<dev.BlockShift > math.MaxUint32 {
-		goto sense
+		if opcode != api.PRE_FETCH_10 && opcode != api.PRE_FETCH_16 {
+			goto sense
+		}
+		// there is no need to prefetch all of it
+		tl = math.MaxUint32 >> dev.BlockShift
 	}
 	cmd.TL = tl << dev.BlockShift
 
-- 
2.43.0


From e8ebc63f6cca4a3dcda739b03a0b2d5c5ce5e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 33/35] fix: WRITE SAME checks its range and computes its
 length with one size of the unit

---
 pkg/scsi/sbc.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 2f4ce01..5aa04bf 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -393,6 +393,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 		opcode = api.SCSICommandType(scb[0])
 		lba    uint64
 		tl     uint32
+		size   uint64
 		err    error
 	)
 	if dev.Attrs.Removable && !dev.Attrs.Online {
@@ -455,18 +456,19 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	tl = getSCSIReadWriteCount(scb)
 
 	// Verify that we are not doing i/o beyond the end-of-lun
+	size = dev.Size >> dev.BlockShift
 	if tl != 0 {
-		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
+		if lba+uint64(tl) < lba || lba+uint64(tl) > size {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
+			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, size)
 			goto sense
 		}
 	} else {
-		if lba >= dev.Size>>dev.BlockShift {
+		if lba >= size {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, size: %d", lba, dev.Size>>dev.BlockShift)
+			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, size: %d", lba, size)
 			goto sense
 		}
 	}
@@ -474,7 +476,11 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	cmd.Offset = lba << dev.BlockShift
 	switch opcode {
 	case api.WRITE_SAME, api.WRITE_SAME_16:
-		return sbcWriteSame(cmd, lba, tl)
+		// no number of blocks means all up to the end
+		if tl == 0 {
+			return sbcWriteSame(cmd, size-lba)
+		}
+		return sbcWriteSame(cmd, uint64(tl))
 	}
 	if uint64(tl)<<dev.BlockShift > math.MaxUint32 {
 		if opcode != api.PRE_FETCH_10 && opcode != api.PRE_FETCH_16 {
@@ -524,12 +530,12 @@ sense:
 
 // sbcWriteSame implements the part of WRITE SAME(10) and WRITE SAME(16) that is
 // left once the range has been checked
-func sbcWriteSame(cmd *api.SCSICommand, lba uint64, tl uint32) api.SAMStat {
+func sbcWriteSame(cmd *api.SCSICommand, blocks uint64) api.SAMStat {
 	var (
 		dev    = cmd.Device
 		scb    = cmd.SCB
 		block  = make([]byte, 1<<dev.BlockShift)
-		length = uint64(tl) << dev.BlockShift
+		length = blocks << dev.BlockShift
 	)
 	// neither the LBA nor the physical block address is put into the data
 	if scb[1]&0x06 != 0 {
@@ -543,9 +549,6 @@ func sbcWriteSame(cmd *api.SCSICommand, lba uint64, tl uint32) api.SAMStat {
 			return api.SAMStatCheckCondition
 		}
 	}
-	if tl == 0 {
-		length = dev.Size>>dev.BlockShift<<dev.BlockShift - cmd.Offset
-	}
 	if err := bsWriteSame(dev, block, cmd.Offset, length); err != nil {
 		log.Errorf("Error from backend: %v", err)
 		BuildSenseData(cmd, MEDIUM_ERROR, ASC_WRITE_ERROR)
-- 
2.43.0


From 02db834cb3510572b3cc3f9e22f1e4f50622712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 34/35] fix: open the storage of a new device without holding
 the lock of the LUN map

---
 pkg/scsi/scsilumap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a65cc12..42f942d 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -126,17 +126,24 @@ func GetTargetBSMap(tgtName string) (api.RemoteBackingStore, error) {
 }
 
 func AddBackendStorage(bs config.BackendStorage) error {
-	globalSCSILUMap.mutex.Lock()
-	defer globalSCSILUMap.mutex.Unlock()
+	globalSCSILUMap.mutex.RLock()
 	_, ok := globalSCSILUMap.AllDevices[bs.DeviceID]
+	globalSCSILUMap.mutex.RUnlock()
 	if ok {
 		return fmt.Errorf("device %q already exists", bs.DeviceID)
 	}
 
+	// opening the storage can take long, so nobody else must wait for it
 	lu, err := NewSCSILu(&bs)
 	if err != nil {
 		return fmt.Errorf("Init SCSI LU map error: %v", err)
 	}
+	globalSCSILUMap.mutex.Lock()
+	defer globalSCSILUMap.mutex.Unlock()
+	if _, ok := globalSCSILUMap.AllDevices[bs.DeviceID]; ok {
+		lu.Storage.Close(lu)
+		return fmt.Errorf("device %q already exists", bs.DeviceID)
+	}
 	globalSCSILUMap.AllDevices[bs.DeviceID] = lu
 	return nil
 }
-- 
2.43.0


From 1c468e35b1d738b07fffec69590b6be4e9a6461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 35/35] fix: serve the versioned routes under every version
 string

---
 pkg/apiserver/apiserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 6803fd6..6918e6a 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -39,7 +39,7 @@ import (
 
 // versionMatcher defines a variable matcher to be parsed by the router
 // when a request is about to be served.
-const versionMatcher = "/v{version:[0-9.]+(?:-dirty)}"
+const versionMatcher = "/v{version:[^/]+}"
 
 // Config provides the configuration for the API server
 type Config struct {
-- 
2.43.0

