From f1c9238938503ab76eea346f97d68c08ff069c0d Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:38:48 +0000
Subject: [PATCH 01/64] fix: keep the tail of long messages when splitting them
 into segments

---
 utils/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index 9867d88..bc3548f 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -199,6 +199,8 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 	tailLen := len(content) % bodyLen
 	if tailLen != 0 {
 		parts++
+	} else {
+		tailLen = bodyLen
 	}
 	// 分片消息组的标识，用于收集组装消息
 	groupId := byte(time.Now().UnixNano() & 0xff)
@@ -216,7 +218,7 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 		if i != parts-1 {
 			copy(part[6:pkgLen], content[bodyLen*i:bodyLen*(i+1)])
 		} else {
-			copy(part[6:], content[0:tailLen])
+			copy(part[6:], content[bodyLen*i:])
 		}
 		rt = append(rt, part)
 	}
-- 
2.43.0


From 90b6f578af12c03b8a3a9d4e6d6122533b07f5aa Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:39:20 +0000
Subject: [PATCH 02/64] fix: report truncated packets as decode errors instead
 of panicking

---
 codec/cmpp/connect.go  |  6 ++++++
 codec/cmpp/delivery.go | 14 ++++++++++++++
 codec/cmpp/header.go   |  3 +++
 codec/cmpp/report.go   |  3 +++
 codec/cmpp/submit.go   | 19 ++++++++++++++++++-
 codec/errors.go        |  6 ++++++
 codec/sgip/bind.go     |  6 ++++++
 codec/sgip/deliver.go  |  9 +++++++++
 codec/sgip/header.go   |  3 +++
 codec/sgip/report.go   |  6 ++++++
 codec/sgip/submit.go   | 14 ++++++++++++++
 codec/sgip/unbind.go   |  6 ++++++
 codec/smgp/deliver.go  | 12 ++++++++++++
 codec/smgp/header.go   |  3 +++
 codec/smgp/login.go    |  6 ++++++
 codec/smgp/report.go   |  5 +++++
 codec/smgp/submit.go   | 15 +++++++++++++++
 17 files changed, 135 insertions(+), 1 deletion(-)
 create mode 100644 codec/errors.go

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index 1ea9cbc..ae8bb42 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -68,6 +68,9 @@ func (c *Connect) Encode() []byte {
 }
 
 func (c *Connect) Decode(seq uint32, frame []byte) error {
+	if len(frame) < ConnectPktLen-int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	c.TotalLength = ConnectPktLen
 	c.CommandId = CMPP_CONNECT
 	c.SequenceId = seq
@@ -174,6 +177,9 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 	}
 	r.CommandId = CMPP_CONNECT_RESP
 	r.SequenceId = seq
+	if len(frame) < int(r.TotalLength-codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 
 	var index int
 	if V30.MajorMatchV(r.Version) {
diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 9ac61e5..203a85e 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -99,6 +99,14 @@ func (d *Delivery) Encode() []byte {
 }
 
 func (d *Delivery) Decode(seq uint32, frame []byte) error {
+	// 固定部分长度（不含消息内容）
+	fixedLen := 65
+	if V30.MajorMatchV(d.Version) {
+		fixedLen = 97
+	}
+	if len(frame) < fixedLen {
+		return codec.ErrShortFrame
+	}
 	d.TotalLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = CMPP_DELIVER
 	d.SequenceId = seq
@@ -123,6 +131,9 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.msgLength = frame[index]
 	index++
 	l := int(d.msgLength)
+	if len(frame) < fixedLen+l {
+		return codec.ErrShortFrame
+	}
 	if d.registeredDelivery == 1 {
 		rpt := &Report{}
 		err := rpt.Decode(frame[index : index+l])
@@ -281,6 +292,9 @@ func (r *DeliveryRsp) Encode() []byte {
 }
 
 func (r *DeliveryRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 9 || (V30.MajorMatchV(r.Version) && len(frame) < 12) {
+		return codec.ErrShortFrame
+	}
 	// check
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_DELIVER_RESP
diff --git a/codec/cmpp/header.go b/codec/cmpp/header.go
index a9fe33d..45648c8 100644
--- a/codec/cmpp/header.go
+++ b/codec/cmpp/header.go
@@ -26,6 +26,9 @@ func (header *MessageHeader) Encode() []byte {
 }
 
 func (header *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	header.TotalLength = binary.BigEndian.Uint32(frame[0:4])
 	header.CommandId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	header.SequenceId = binary.BigEndian.Uint32(frame[8:12])
diff --git a/codec/cmpp/report.go b/codec/cmpp/report.go
index 57c2d2b..541fc12 100644
--- a/codec/cmpp/report.go
+++ b/codec/cmpp/report.go
@@ -64,6 +64,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < 60 {
+		return codec.ErrShortFrame
+	}
 	rt.msgId = binary.BigEndian.Uint64(frame[0:8])
 	rt.stat = utils.TrimStr(frame[8:15])
 	rt.submitTime = utils.TrimStr(frame[15:25])
diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 5d131a6..0bf46bd 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -161,6 +161,14 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(seq uint32, frame []byte) error {
+	// 固定部分长度（不含号码列表及消息内容）
+	fixedLen := 118
+	if V30.MajorMatchV(s.Version) {
+		fixedLen = 151
+	}
+	if len(frame) < fixedLen {
+		return codec.ErrShortFrame
+	}
 	s.TotalLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = CMPP_SUBMIT
 	s.SequenceId = seq
@@ -207,10 +215,13 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destUsrTl = frame[index]
 	index++
-	l := int(s.destUsrTl * 21)
+	l := int(s.destUsrTl) * 21
 	if V30.MajorMatchV(s.Version) {
 		l = int(s.destUsrTl) << 5
 	}
+	if len(frame) < fixedLen+l {
+		return codec.ErrShortFrame
+	}
 	s.termIds = frame[index : index+l]
 	index += l
 	if V30.MajorMatchV(s.Version) {
@@ -221,6 +232,9 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.destTerminalId = utils.TrimStr(s.termIds)
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < fixedLen+l+int(s.msgLength) {
+		return codec.ErrShortFrame
+	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
 	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
@@ -294,6 +308,9 @@ func (r *SubmitRsp) Encode() []byte {
 	return frame
 }
 func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 9 || (V30.MajorMatchV(r.Version) && len(frame) < 12) {
+		return codec.ErrShortFrame
+	}
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_SUBMIT_RESP
 	r.SequenceId = seq
diff --git a/codec/errors.go b/codec/errors.go
new file mode 100644
index 0000000..02de8f3
--- /dev/null
+++ b/codec/errors.go
@@ -0,0 +1,6 @@
+package codec
+
+import "errors"
+
+// ErrShortFrame 报文长度不足，无法按协议结构解析
+var ErrShortFrame = errors.New("frame is shorter than the packet structure requires")
diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index 7639e50..8bd449d 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -46,6 +46,9 @@ func (b *Bind) Encode() []byte {
 }
 
 func (b *Bind) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 41 {
+		return codec.ErrShortFrame
+	}
 	b.PacketLength = codec.HeadLen + uint32(len(frame))
 	b.CommandId = SGIP_BIND
 	b.SequenceNumber = make([]uint32, 3)
@@ -104,6 +107,9 @@ func (r *BindRsp) Encode() []byte {
 }
 
 func (r *BindRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_BIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index a8c26c4..eb03458 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -78,6 +78,9 @@ func (d *Deliver) Encode() []byte {
 }
 
 func (d *Deliver) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 57 {
+		return codec.ErrShortFrame
+	}
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = SGIP_DELIVER
 	d.SequenceNumber = make([]uint32, 3)
@@ -99,6 +102,9 @@ func (d *Deliver) Decode(cid uint32, frame []byte) error {
 	index++
 	d.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if int64(len(frame)) < int64(index)+int64(d.MessageLength) {
+		return codec.ErrShortFrame
+	}
 	d.MessageContent = frame[index : index+int(d.MessageLength)]
 	index += int(d.MessageLength)
 	d.Reserve = ""
@@ -140,6 +146,9 @@ func (d *Deliver) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *DeliverRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_DELIVER_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/header.go b/codec/sgip/header.go
index 140270f..bffb5b5 100644
--- a/codec/sgip/header.go
+++ b/codec/sgip/header.go
@@ -30,6 +30,9 @@ func (h *MessageHeader) Encode() []byte {
 }
 
 func (h *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen)+8 {
+		return codec.ErrShortFrame
+	}
 	h.PacketLength = binary.BigEndian.Uint32(frame[0:4])
 	h.CommandId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	h.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 36ed683..0641d0f 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -54,6 +54,9 @@ func (r *Report) Encode() []byte {
 }
 
 func (r *Report) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 43 {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT
 	r.SequenceNumber = make([]uint32, 3)
@@ -109,6 +112,9 @@ func (r *Report) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *ReportRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 9c3ddf6..a8d9112 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -148,6 +148,11 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(cid uint32, frame []byte) error {
+	// 固定部分长度（不含号码列表、消息内容及保留字段）
+	fixedLen := 123
+	if len(frame) < fixedLen {
+		return codec.ErrShortFrame
+	}
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = SGIP_SUBMIT
 	s.SequenceNumber = make([]uint32, 3)
@@ -163,6 +168,9 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index += 21
 	s.UserCount = frame[index]
 	index++
+	if len(frame) < fixedLen+int(s.UserCount)*21 {
+		return codec.ErrShortFrame
+	}
 	s.UserNumber = make([]string, s.UserCount)
 	for i := 0; i < int(s.UserCount); i++ {
 		s.UserNumber[i] = utils.TrimStr(frame[index : index+21])
@@ -200,6 +208,9 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index++
 	s.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if int64(len(frame)) < int64(index)+int64(s.MessageLength) {
+		return codec.ErrShortFrame
+	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
 	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
@@ -300,6 +311,9 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *SubmitRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_SUBMIT_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/unbind.go b/codec/sgip/unbind.go
index b625bf9..c295bf7 100644
--- a/codec/sgip/unbind.go
+++ b/codec/sgip/unbind.go
@@ -21,6 +21,9 @@ func (u *Unbind) Encode() []byte {
 }
 
 func (u *Unbind) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8 {
+		return codec.ErrShortFrame
+	}
 	u.PacketLength = codec.HeadLen + 8
 	u.CommandId = SGIP_UNBIND
 	u.SequenceNumber = make([]uint32, 3)
@@ -51,6 +54,9 @@ func (r *UnbindRsp) Encode() []byte {
 }
 
 func (r *UnbindRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8 {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + 8
 	r.CommandId = SGIP_UNBIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 3040ca7..ce861cb 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -109,6 +109,9 @@ func (d *Delivery) Encode() []byte {
 }
 
 func (d *Delivery) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 69 {
+		return codec.ErrShortFrame
+	}
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.RequestId = SMGP_DELIVER
 	d.SequenceId = seq
@@ -128,12 +131,18 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.msgLength = frame[index]
 	index += 1
 	if d.IsReport() {
+		if len(frame) < index+RptLen {
+			return codec.ErrShortFrame
+		}
 		d.report = &Report{}
 		err := d.report.Decode(frame[index : index+RptLen])
 		if err != nil {
 			return err
 		}
 	} else {
+		if len(frame) < index+int(d.msgLength) {
+			return codec.ErrShortFrame
+		}
 		bytes, err := GbDecoder.Bytes(frame[index : index+int(d.msgLength)])
 		if err != nil {
 			return err
@@ -212,6 +221,9 @@ func (r *DeliverRsp) Encode() []byte {
 }
 
 func (r *DeliverRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 14 {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_DELIVER_RESP
 	r.SequenceId = seq
diff --git a/codec/smgp/header.go b/codec/smgp/header.go
index 1d65812..6f55a31 100644
--- a/codec/smgp/header.go
+++ b/codec/smgp/header.go
@@ -27,6 +27,9 @@ func (h *MessageHeader) Encode() []byte {
 }
 
 func (h *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	h.PacketLength = binary.BigEndian.Uint32(frame[0:4])
 	h.RequestId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	h.SequenceId = binary.BigEndian.Uint32(frame[8:12])
diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 8fa8b9e..9ae2fe3 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -70,6 +70,9 @@ func (l *Login) Encode() []byte {
 }
 
 func (l *Login) Decode(seq uint32, frame []byte) error {
+	if len(frame) < LoginLen-int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
@@ -164,6 +167,9 @@ func (r *LoginRsp) Encode() []byte {
 }
 
 func (r *LoginRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < LoginRespLen-int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_LOGIN_RESP
 	r.SequenceId = seq
diff --git a/codec/smgp/report.go b/codec/smgp/report.go
index 863f387..4528171 100644
--- a/codec/smgp/report.go
+++ b/codec/smgp/report.go
@@ -3,6 +3,8 @@ package smgp
 import (
 	"fmt"
 	"time"
+
+	"github.com/hrygo/gosms/codec"
 )
 
 type Report struct {
@@ -83,6 +85,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < RptLen {
+		return codec.ErrShortFrame
+	}
 	index := 3 // skip "id:"
 	rt.id = frame[index : index+10]
 	index += 10
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 4883506..2ecd52e 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -144,6 +144,11 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(seq uint32, frame []byte) error {
+	// 固定部分长度（不含号码列表、消息内容及可选参数）
+	fixedLen := 114
+	if len(frame) < fixedLen {
+		return codec.ErrShortFrame
+	}
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.RequestId = SMGP_SUBMIT
 	s.SequenceId = seq
@@ -175,12 +180,19 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destTermIDCount = frame[index]
 	index++
+	fixedLen += int(s.destTermIDCount) * 21
+	if len(frame) < fixedLen {
+		return codec.ErrShortFrame
+	}
 	for i := byte(0); i < s.destTermIDCount; i++ {
 		s.destTermID = append(s.destTermID, utils.TrimStr(frame[index:index+21]))
 		index += 21
 	}
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < fixedLen+int(s.msgLength) {
+		return codec.ErrShortFrame
+	}
 	content := frame[index : index+int(s.msgLength)]
 	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
@@ -232,6 +244,9 @@ func (r *SubmitRsp) Encode() []byte {
 }
 
 func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 14 {
+		return codec.ErrShortFrame
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_SUBMIT_RESP
 	r.SequenceId = seq
-- 
2.43.0


From 40effe14fb1f711bdfdfef9aea9de2e4a8d404de Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:39:50 +0000
Subject: [PATCH 03/64] fix: strip the user data header only when present and
 convert only UCS2 segments

---
 codec/cmpp/submit.go | 7 +++++--
 codec/sgip/submit.go | 7 +++++--
 codec/smgp/submit.go | 2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 0bf46bd..1f7ae62 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -237,9 +237,12 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if s.tpUdhi == 1 && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
-		s.msgContent, _ = utils.Ucs2ToUtf8(content)
+		s.msgContent = content
+		if s.msgFmt == 8 {
+			s.msgContent, _ = utils.Ucs2ToUtf8(content)
+		}
 	}
 	index += int(s.msgLength)
 	if V30.MajorMatchV(s.Version) {
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index a8d9112..6643cf8 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -213,9 +213,12 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if s.TpUdhi == 1 && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
-		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+		s.MessageContent = content
+		if s.MessageCoding == 8 {
+			s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+		}
 	}
 	s.Reserve = ""
 	return nil
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 2ecd52e..f7bc09f 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -194,7 +194,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 		return codec.ErrShortFrame
 	}
 	content := frame[index : index+int(s.msgLength)]
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 	}
 	index += int(s.msgLength)
-- 
2.43.0


From 2d907dc2a8b81dbc5458ec8894a30027dff0c737 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:39:53 +0000
Subject: [PATCH 04/64] fix: decode the CMPP deliver service id into its own
 field

---
 codec/cmpp/delivery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 203a85e..c1770cb 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -112,7 +112,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.SequenceId = seq
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
-	d.destId = utils.TrimStr(frame[29:39])
+	d.serviceId = utils.TrimStr(frame[29:39])
 	d.tpPid = frame[39]
 	d.tpUdhi = frame[40]
 	d.msgFmt = frame[41]
-- 
2.43.0


From 257ae59263828a0312015b4f88f367f15e71068d Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:39:56 +0000
Subject: [PATCH 05/64] fix: carry CMPP deliver content intact for UCS2 and
 full length messages

---
 codec/cmpp/delivery.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index c1770cb..07bd2fd 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"unicode/utf16"
 
 	"github.com/hrygo/log"
 
@@ -84,10 +85,11 @@ func (d *Delivery) Encode() []byte {
 		// 状态报告
 		copy(frame[index:index+l], d.report.Encode())
 	} else {
-		// 上行短信，不支持长短信，固定选用第一片 （New时需处理）
-		slices := utils.MsgSlices(d.msgFmt, d.msgContent)
-		// 不支持长短信，固定选用第一片
-		content := slices[0]
+		// 上行短信，不支持长短信，New时已截取
+		content := []byte(d.msgContent)
+		if d.msgFmt == 8 {
+			content, _ = utils.Utf8ToUcs2(d.msgContent)
+		}
 		copy(frame[index:index+l], content)
 	}
 	index += l
@@ -142,7 +144,12 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 		}
 		d.report = rpt
 	} else {
-		d.msgContent = utils.TrimStr(frame[index : index+l])
+		if d.msgFmt == 8 {
+			content, _ := utils.Ucs2ToUtf8(frame[index : index+l])
+			d.msgContent = string(content)
+		} else {
+			d.msgContent = utils.TrimStr(frame[index : index+l])
+		}
 	}
 	index += l
 	if V30.MajorMatchV(d.Version) {
@@ -170,12 +177,13 @@ func setMsgContent(dly *Delivery, msg string) {
 	dly.msgFmt = utils.MsgFmt(msg)
 	var l int
 	if dly.msgFmt == 8 {
-		l = 2 * len([]rune(msg))
-		if l > 140 {
-			// 只取前70个字符
-			rs := []rune(msg)
-			msg = string(rs[:70])
-			l = 140
+		rs := []rune(msg)
+		l = 2 * len(utf16.Encode(rs))
+		// 只取前70个字符（按UCS2编码单元计）
+		for l > 140 {
+			rs = rs[:len(rs)-1]
+			msg = string(rs)
+			l = 2 * len(utf16.Encode(rs))
 		}
 	} else {
 		l = len(msg)
-- 
2.43.0


From 4a1ae9d7fbd3c5a1a081956c52eda220d66bdc17 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:25 +0000
Subject: [PATCH 06/64] fix: give SGIP reports the report command id

---
 codec/sgip/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 0641d0f..57ccba8 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -25,7 +25,7 @@ const DlvPackLen = 64
 func NewReport(phone string, mtSequence []uint32, status Status, code byte) codec.RequestPdu {
 	dlv := &Report{}
 	dlv.PacketLength = DlvPackLen
-	dlv.CommandId = SGIP_DELIVER
+	dlv.CommandId = SGIP_REPORT
 	dlv.SequenceNumber = Sequencer.NextVal()
 	dlv.MtSequence = mtSequence
 	dlv.UserNumber = phone
-- 
2.43.0


From 210659744f24abc325fbe0ad7683c8c5b940f41d Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:28 +0000
Subject: [PATCH 07/64] fix: log in to SGIP with the assigned login name that
 the server verifies

---
 codec/sgip/bind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index 8bd449d..ab124fb 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -27,7 +27,7 @@ func NewBind(ac *codec.AuthConf, loginType byte) *Bind {
 	b.PacketLength = BindPkgLen
 	b.SequenceNumber = Sequencer.NextVal()
 	b.LoginType = loginType
-	b.LoginName = ac.ClientId
+	b.LoginName = ac.LoginName
 	b.LoginPassword = ac.SharedSecret
 	return b
 }
-- 
2.43.0


From 2ed9d9970ccff7fa4a07732960b77d1110bdcefd Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:31 +0000
Subject: [PATCH 08/64] fix: keep overlong SGIP fields inside their own columns

---
 codec/sgip/deliver.go |  4 ++--
 codec/sgip/report.go  |  2 +-
 codec/sgip/submit.go  | 20 ++++++++++----------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index eb03458..3512ee9 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -59,9 +59,9 @@ func NewDeliver(ac *codec.AuthConf, phone, content, destNo string) codec.Request
 func (d *Deliver) Encode() []byte {
 	frame := d.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], d.UserNumber)
+	copy(frame[index:index+21], d.UserNumber)
 	index += 21
-	copy(frame[index:], d.SPNumber)
+	copy(frame[index:index+21], d.SPNumber)
 	index += 21
 	frame[index] = d.TpPid
 	index++
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 57ccba8..0555b17 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -43,7 +43,7 @@ func (r *Report) Encode() []byte {
 	}
 	frame[index] = r.ReportType
 	index++
-	copy(frame[index:], r.UserNumber)
+	copy(frame[index:index+21], r.UserNumber)
 	index += 21
 	frame[index] = byte(r.State)
 	index++
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 6643cf8..911ade8 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -99,25 +99,25 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, options ...c
 func (s *Submit) Encode() []byte {
 	frame := s.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], s.SPNumber)
+	copy(frame[index:index+21], s.SPNumber)
 	index += 21
-	copy(frame[index:], s.ChargeNumber)
+	copy(frame[index:index+21], s.ChargeNumber)
 	index += 21
 	frame[index] = s.UserCount
 	index++
 	for _, p := range s.UserNumber {
-		copy(frame[index:], p)
+		copy(frame[index:index+21], p)
 		index += 21
 	}
-	copy(frame[index:], s.CorpId)
+	copy(frame[index:index+5], s.CorpId)
 	index += 5
-	copy(frame[index:], s.ServiceType)
+	copy(frame[index:index+10], s.ServiceType)
 	index += 10
 	frame[index] = s.FeeType
 	index++
-	copy(frame[index:], s.FeeValue)
+	copy(frame[index:index+6], s.FeeValue)
 	index += 6
-	copy(frame[index:], s.GivenValue)
+	copy(frame[index:index+6], s.GivenValue)
 	index += 6
 	frame[index] = s.AgentFlag
 	index++
@@ -125,9 +125,9 @@ func (s *Submit) Encode() []byte {
 	index++
 	frame[index] = s.Priority
 	index++
-	copy(frame[index:], s.ExpireTime)
+	copy(frame[index:index+16], s.ExpireTime)
 	index += 16
-	copy(frame[index:], s.ScheduleTime)
+	copy(frame[index:index+16], s.ScheduleTime)
 	index += 16
 	frame[index] = s.ReportFlag
 	index++
@@ -143,7 +143,7 @@ func (s *Submit) Encode() []byte {
 	index += 4
 	copy(frame[index:], s.MessageContent)
 	index += len(s.MessageContent)
-	copy(frame[index:], s.Reserve)
+	copy(frame[index:index+8], s.Reserve)
 	return frame
 }
 
-- 
2.43.0


From 3928b9a225978fe6385390860bf8411daa585212 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 09/64] fix: honour the SMGP submit options and their defaults

---
 codec/smgp/submit.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index f7bc09f..2d0bac6 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -381,14 +381,12 @@ func (r *SubmitRsp) Status() Status {
 
 func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 	s.needReport = ac.NeedReport
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.NeedReport != 0 {
+	if options.NeedReport != uint8(0xf) {
 		s.needReport = options.NeedReport
 	}
 
 	s.priority = ac.DefaultMsgLevel
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.MsgLevel != 0 {
+	if options.MsgLevel != uint8(0xf) {
 		s.priority = options.MsgLevel
 	}
 
@@ -401,13 +399,12 @@ func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 		s.atTime = options.AtTime
 	}
 
-	vt := time.Now()
 	if options.ValidTime != "" {
 		s.validTime = options.ValidTime
 	} else {
-		vt.Add(ac.MtValidDuration)
+		vt := time.Now().Add(ac.MtValidDuration)
+		s.validTime = utils.FormatTime(vt)
 	}
-	s.validTime = utils.FormatTime(vt)
 
 	s.srcTermID = ac.SmsDisplayNo
 	if options.SpSubNo != "" {
-- 
2.43.0


From 1b9987b78f6763934f8f3c6e663a3bda26314bc4 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:38 +0000
Subject: [PATCH 10/64] fix: number SMGP segments from one

---
 codec/smgp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 2d0bac6..b49e6b7 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -95,7 +95,7 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 			l += 5
 			sub.tlvList.Add(PkTotal, []byte{byte(len(slices))})
 			l += 5
-			sub.tlvList.Add(PkNumber, []byte{byte(i)})
+			sub.tlvList.Add(PkNumber, []byte{byte(i + 1)})
 			l += 5
 			sub.PacketLength = uint32(MtBaseLen + len(sub.destTermID)*21 + int(sub.msgLength) + l)
 			messages = append(messages, sub)
-- 
2.43.0


From f968b20f6f110af9eda7c4069fcb2c19f29f5fe2 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:41 +0000
Subject: [PATCH 11/64] fix: drop the padding of short SMGP client ids at login

---
 codec/smgp/login.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 9ae2fe3..d5aeb8d 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -76,7 +76,7 @@ func (l *Login) Decode(seq uint32, frame []byte) error {
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
-	l.clientID = string(frame[0:8])
+	l.clientID = utils.TrimStr(frame[0:8])
 	l.authenticatorClient = frame[8:24]
 	l.loginMode = frame[24]
 	l.timestamp = binary.BigEndian.Uint32(frame[25:29])
-- 
2.43.0


From 9f4e3ceaa0577b0d06ac38d61c534a67db5e2979 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:44 +0000
Subject: [PATCH 12/64] fix: declare the real length of SMGP status reports

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index ce861cb..2fc60c4 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -75,7 +75,7 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.SequenceId = seq
 	dlv.msgId = codec.BcdSeq.NextVal()
 	dlv.report = NewReport(msgId)
-	dlv.msgLength = 115
+	dlv.msgLength = byte(RptLen)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-- 
2.43.0


From f1a40e55324fd9013d4b63656bed74268f944c06 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:47 +0000
Subject: [PATCH 13/64] fix: acknowledge SMGP deliveries with the message id
 they carry

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 2fc60c4..2120b9f 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -159,7 +159,7 @@ func (d *Delivery) ToResponse(code uint32) codec.Pdu {
 	resp.PacketLength = 26
 	resp.SequenceId = d.SequenceId
 	resp.status = Status(code)
-	resp.msgId = codec.BcdSeq.NextVal()
+	resp.msgId = d.msgId
 	return resp
 }
 
-- 
2.43.0


From 6db042d49afa792eda2c77ea98f30b05efc709bc Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 14/64] fix: keep SMGP mobile originated text within the length
 octet

---
 codec/smgp/deliver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 2120b9f..5dddb3c 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -60,6 +60,12 @@ func NewDeliver(ac *codec.AuthConf, phone string, destNo string, txt string, seq
 		subTxt = string(rs)
 	}
 	gbs, _ := GbEncoder.String(subTxt)
+	// GB18030四字节字符会超出140字节
+	for len(gbs) > 140 {
+		rs = rs[:len(rs)-1]
+		subTxt = string(rs)
+		gbs, _ = GbEncoder.String(subTxt)
+	}
 	msg := []byte(gbs)
 	dlv.msgBytes = msg
 	dlv.msgLength = byte(len(msg))
-- 
2.43.0


From fb8da791d36930ccc3cef2e7781f0acfda0175f7 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:40:53 +0000
Subject: [PATCH 15/64] fix: apply the options given to WithMtOptions

---
 codec/options_mt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/options_mt.go b/codec/options_mt.go
index cb002a8..c584ee8 100644
--- a/codec/options_mt.go
+++ b/codec/options_mt.go
@@ -37,7 +37,9 @@ type MtOptions struct {
 // WithMtOptions 设置配置项
 func WithMtOptions(opt *MtOptions) OptionFunc {
 	return func(mtOps *MtOptions) {
-		mtOps = opt
+		if opt != nil {
+			*mtOps = *opt
+		}
 	}
 }
 
-- 
2.43.0


From 3c0494a0fac3229f6fef9712abb203d505d96f6c Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:41:10 +0000
Subject: [PATCH 16/64] fix: keep the node bits of cycle sequences inside 31
 bits

---
 utils/cycle_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cycle_sequence.go b/utils/cycle_sequence.go
index 66d1294..de2581b 100644
--- a/utils/cycle_sequence.go
+++ b/utils/cycle_sequence.go
@@ -18,7 +18,7 @@ type CycleSequence struct {
 const (
 	sequenceMask    = int32(0x03ffffff)         // 最大值为26个1
 	workerBits      = uint(3)                   // 机器id所占位数
-	sequenceBits    = uint(28)                  // 序列所占的位数
+	sequenceBits    = uint(26)                  // 序列所占的位数
 	workerShift     = sequenceBits              // 机器id左移位数
 	datacenterShift = sequenceBits + workerBits // 数据中心id左移位数
 )
-- 
2.43.0


From 9175aef13004224aedc200c0c9d14286ac963cf1 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 17/64] fix: let 32 bit snowflake ids roll over midnight

---
 utils/snowflake32/snowflake32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/snowflake32/snowflake32.go b/utils/snowflake32/snowflake32.go
index 1e8c2f9..0f30dc3 100644
--- a/utils/snowflake32/snowflake32.go
+++ b/utils/snowflake32/snowflake32.go
@@ -43,7 +43,7 @@ func (s *Snowflake) NextVal() int32 {
 		if s.sequence == 0 {
 			// 如果当前序列超出9bit长度，则需要等待下一秒
 			// 下一秒将使用sequence:0
-			for now <= s.seconds {
+			for now == s.seconds {
 				time.Sleep(time.Microsecond)
 				now = passedSeconds()
 			}
-- 
2.43.0


From 7e3cfab1f3d102cbde077febb7d96f579cb21977 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 18/64] fix: read TLV objects completely and report truncated
 ones

---
 utils/tlv.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/tlv.go b/utils/tlv.go
index 82059d5..1ab1f54 100644
--- a/utils/tlv.go
+++ b/utils/tlv.go
@@ -104,14 +104,20 @@ func ReadObject(r io.Reader) (TLV, error) {
 
 	var length uint16
 	err = binary.Read(r, binary.BigEndian, &length)
+	if err == io.EOF {
+		// 类型之后数据已结束，属于被截断的对象
+		return nil, ErrTLVRead
+	}
 	if err != nil {
 		return nil, err
 	}
 	tlv.len = length
 
 	tlv.val = make([]byte, tlv.Length())
-	l, err := r.Read(tlv.val)
-	if err != nil {
+	l, err := io.ReadFull(r, tlv.val)
+	if err == io.EOF || err == io.ErrUnexpectedEOF {
+		return tlv, ErrTLVRead
+	} else if err != nil {
 		return nil, err
 	} else if uint16(l) != tlv.Length() {
 		return tlv, ErrTLVRead
-- 
2.43.0


From 1065a788fb50e3f8e8e1092db8ff7394bb81c296 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:41:31 +0000
Subject: [PATCH 19/64] fix: keep the last digit of odd length BCD strings

---
 utils/bcd_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bcd_sequence.go b/utils/bcd_sequence.go
index 3ec71ba..e8f13ac 100644
--- a/utils/bcd_sequence.go
+++ b/utils/bcd_sequence.go
@@ -91,7 +91,7 @@ func StoBcd(w string) []byte {
 			h, l = 0, 0
 		}
 	}
-	if h != 0 {
+	if len(w)&0x1 == 1 {
 		wb = append(wb, h<<4)
 	}
 	return wb
-- 
2.43.0


From 8460f18b497052acef571aa3f20523f0bfff3167 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:41:33 +0000
Subject: [PATCH 20/64] fix: read the node numbers of 32 bit sequences from
 their own settings

---
 msc_client/bootstrap.go | 4 ++--
 msc_server/bootstrap.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_client/bootstrap.go b/msc_client/bootstrap.go
index 8553c5b..01a43cf 100644
--- a/msc_client/bootstrap.go
+++ b/msc_client/bootstrap.go
@@ -120,8 +120,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
diff --git a/msc_server/bootstrap.go b/msc_server/bootstrap.go
index 938ac38..781b61f 100644
--- a/msc_server/bootstrap.go
+++ b/msc_server/bootstrap.go
@@ -112,8 +112,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
-- 
2.43.0


From 77ae6c93910b6b1c44dcc2199d708e617d354430 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:41:50 +0000
Subject: [PATCH 21/64] fix: register events atomically and pass call arguments
 through

---
 event_manager/event_manage.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 1133ec7..b7fbcdb 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -63,12 +63,11 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 		key = m.prefix + key
 	}
 	// 判断key下是否已有事件
-	if _, exists := m.Get(key); exists == false {
-		sMap.Store(key, func(args ...any) {
-			for _, fn := range events {
-				fn()
-			}
-		})
+	if _, exists := sMap.LoadOrStore(key, func(args ...any) {
+		for _, fn := range events {
+			fn(args...)
+		}
+	}); exists == false {
 		return true
 	} else {
 		log.Info(ErrorsFuncEventAlreadyExists + " , 相关键名：" + key)
@@ -95,7 +94,7 @@ func (m *eventManage) Call(key string, args ...interface{}) {
 	}
 	if fn, exists := m.Get(key); exists {
 		log.Infof("Call: %#v, Key: %s", fn, key)
-		fn(args)
+		fn(args...)
 		log.Infof("Done: %#v, Key: %s", fn, key)
 
 	} else {
-- 
2.43.0


From 11ca00d3d151726154a4b64ea276caf37653e99d Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:41:52 +0000
Subject: [PATCH 22/64] fix: do not block a repeated shutdown on an already
 signalled hook

---
 event_manager/event_manage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index b7fbcdb..664784a 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -39,7 +39,10 @@ func RegisterShutdownHooker(key string, hookers ...Event) bool {
 func RegisterShutdownHookerAddChan(key string, events ...Event) <-chan bool {
 	cancel := make(chan bool, 1)
 	events = append(events, func(args ...any) {
-		cancel <- true
+		select {
+		case cancel <- true:
+		default: // 已有未消费的取消信号
+		}
 	})
 	ok := RegisterShutdownHooker(key, events...)
 	if !ok {
-- 
2.43.0


From 92f9f7c5e2bf3a929ec02d33876318b33c67f7ab Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 18:41:55 +0000
Subject: [PATCH 23/64] fix: find YAML clients whose id has upper case letters
 and skip unrelated files

---
 auth/yaml_store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index 5701994..d994ce6 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -37,7 +37,7 @@ func (y *YamlStore) Load() {
 		if strings.HasSuffix(f.Name(), ".yml") {
 			key = f.Name()[:len(f.Name())-4]
 		}
-		if "" == key {
+		if len(key) < 4 {
 			continue
 		}
 		data, err := ioutil.ReadFile(dir + f.Name())
@@ -52,7 +52,7 @@ func (y *YamlStore) Load() {
 func (y *YamlStore) FindByCid(isp string, cid string) *Client {
 	y.Lock()
 	defer y.Unlock()
-	client := y.Cache[strings.ToLower(isp)+"_"+cid]
+	client := y.Cache[strings.ToLower(isp+"_"+cid)]
 	return client
 }
 
-- 
2.43.0


From 950e0bbe8557606da133e27b6c25a1e3bbaaa7e8 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 24/64] fix: require the whole SGIP report before decoding it

---
 codec/sgip/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 0555b17..eba4d30 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -54,7 +54,7 @@ func (r *Report) Encode() []byte {
 }
 
 func (r *Report) Decode(cid uint32, frame []byte) error {
-	if len(frame) < 43 {
+	if len(frame) < 44 {
 		return codec.ErrShortFrame
 	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
-- 
2.43.0


From 737af88dfb1df4af5174757b01b56a38315a6f3b Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:00:53 +0000
Subject: [PATCH 25/64] fix: build SMGP reports for submissions without
 destinations

---
 codec/smgp/deliver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 5dddb3c..957db9d 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -85,7 +85,9 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-	dlv.srcTermID = mt.destTermID[0]
+	if len(mt.destTermID) > 0 {
+		dlv.srcTermID = mt.destTermID[0]
+	}
 	dlv.destTermID = mt.srcTermID
 	dlv.PacketLength = baseLen + uint32(RptLen)
 	return dlv
-- 
2.43.0


From 33f43415053f526d3381aaf269de5430b83c609d Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 26/64] fix: count sessions under the server lock and leave
 rejected connections out of it

---
 msc_server/server/on_close.go | 13 +++++++------
 msc_server/server/on_open.go  |  4 ++--
 msc_server/server/server.go   | 14 ++++++++++++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index c4c334e..e702903 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -14,6 +14,11 @@ var logDb = msc.New("CounterDB")
 func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 	msg := fmt.Sprintf("[%s] OnClose ===", s.name)
 	sc := Session(c)
+	if sc == nil {
+		// 被拒绝的连接没有会话
+		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})...)
+		return
+	}
 	defer deferFunc(c, s, sc)
 
 	fields := FlatMapLog(sc.LogSession(), s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})
@@ -25,11 +30,7 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
 	sc.closeResource() // 关闭通道，释放线程池
-	s.sessionPool.Delete(sc.Id())
-	s.activeSessions -= 1
+	s.removeSession(sc)
 	c.SetContext(nil)
-	if sc != nil {
-		sc.conn = nil
-		sc = nil
-	}
+	sc.conn = nil
 }
diff --git a/msc_server/server/on_open.go b/msc_server/server/on_open.go
index fc3e0c0..1fb5eed 100644
--- a/msc_server/server/on_open.go
+++ b/msc_server/server/on_open.go
@@ -12,12 +12,12 @@ import (
 func (s *Server) OnOpen(c gnet.Conn) (out []byte, action gnet.Action) {
 	var msg = fmt.Sprintf("[%s] OnOpen ===", s.name)
 
-	if s.ActiveSessions() >= s.sessionPoolCap {
+	sc := s.CreateSession(c)
+	if sc == nil {
 		// 已达到连接数阈值时，拒绝新的连接
 		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpFlowControl.Field(), SErrField(msc.ErrorsSessionThreshReached)})...)
 		return nil, gnet.Close
 	} else {
-		sc := s.CreateSession(c)
 		log.Info(msg, FlatMapLog(sc.LogSession(), s.LogCounter())...)
 		return
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 11a63c5..2ce9504 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -78,9 +78,13 @@ func New(name string) *Server {
 	}
 }
 
+// CreateSession 创建会话，会话数已达上限时返回nil
 func (s *Server) CreateSession(c gnet.Conn) *session {
 	s.Lock()
 	defer s.Unlock()
+	if s.activeSessions >= s.sessionPoolCap {
+		return nil
+	}
 	sc := NewSession(c)
 	sc.serverName = s.name
 	c.SetContext(sc)
@@ -89,6 +93,14 @@ func (s *Server) CreateSession(c gnet.Conn) *session {
 	return sc
 }
 
+// removeSession 移除会话
+func (s *Server) removeSession(sc *session) {
+	s.Lock()
+	defer s.Unlock()
+	s.sessionPool.Delete(sc.id)
+	s.activeSessions -= 1
+}
+
 func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	s.Lock()
 	defer s.Unlock()
@@ -103,6 +115,8 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 }
 
 func (s *Server) ActiveSessions() int {
+	s.Lock()
+	defer s.Unlock()
 	return s.activeSessions
 }
 
-- 
2.43.0


From 4b209b3eb6e63e6a49362f89706e1e5e1cb7de8f Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:27:05 +0000
Subject: [PATCH 27/64] fix: keep window, pool and connection of a session
 usable for its running tasks

---
 msc_server/server/cmpp_active.go         |  5 +-
 msc_server/server/cmpp_active_resp.go    |  5 +-
 msc_server/server/cmpp_connect.go        |  7 +--
 msc_server/server/cmpp_delivery_resp.go  |  5 +-
 msc_server/server/cmpp_submit.go         |  5 +-
 msc_server/server/cmpp_terminate.go      |  5 +-
 msc_server/server/cmpp_terminate_resp.go |  5 +-
 msc_server/server/on_close.go            |  1 -
 msc_server/server/session.go             | 69 ++++++++++++++----------
 msc_server/server/sgip_bind.go           |  7 +--
 msc_server/server/sgip_submit.go         |  5 +-
 msc_server/server/sgip_unbind.go         |  5 +-
 msc_server/server/sgip_unbind_resp.go    |  5 +-
 msc_server/server/smgp_active.go         |  5 +-
 msc_server/server/smgp_active_resp.go    |  5 +-
 msc_server/server/smgp_delivery_resp.go  |  5 +-
 msc_server/server/smgp_exit.go           |  5 +-
 msc_server/server/smgp_exit_resp.go      |  5 +-
 msc_server/server/smgp_login.go          |  7 +--
 msc_server/server/smgp_submit.go         |  5 +-
 20 files changed, 99 insertions(+), 67 deletions(-)

diff --git a/msc_server/server/cmpp_active.go b/msc_server/server/cmpp_active.go
index d523875..a4a5ff0 100644
--- a/msc_server/server/cmpp_active.go
+++ b/msc_server/server/cmpp_active.go
@@ -42,8 +42,9 @@ var cmppActive TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleCmppActive(s *Server, sc *session, pdu *cmpp.ActiveTest) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_active_resp.go b/msc_server/server/cmpp_active_resp.go
index ce6b187..cfcc855 100644
--- a/msc_server/server/cmpp_active_resp.go
+++ b/msc_server/server/cmpp_active_resp.go
@@ -42,8 +42,9 @@ var cmppActiveResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Co
 
 func handleCmppActiveResp(s *Server, sc *session, pdu *cmpp.ActiveTestRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用ActiveResp进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 9cf83d1..fd4cc09 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -60,9 +60,10 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == cmpp.ConnStatusOK {
-			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
+			if sc.completeLogin(cli) {
+				// 更新会话
+				s.SessionPool().Store(sc.id, sc)
+			}
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 8eb9df6..29081f6 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -42,8 +42,9 @@ var cmppDeliveryResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.
 
 func handleCmppDeliveryResp(s *Server, sc *session, pdu *cmpp.DeliveryRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index e446a4d..4f43296 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -53,8 +53,9 @@ var cmppSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
diff --git a/msc_server/server/cmpp_terminate.go b/msc_server/server/cmpp_terminate.go
index 6d94c53..06a5309 100644
--- a/msc_server/server/cmpp_terminate.go
+++ b/msc_server/server/cmpp_terminate.go
@@ -41,8 +41,9 @@ var cmppTerminate TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Con
 
 func handleCmppTerminate(s *Server, sc *session, term *cmpp.Terminate) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_terminate_resp.go b/msc_server/server/cmpp_terminate_resp.go
index 2220091..9feaa0d 100644
--- a/msc_server/server/cmpp_terminate_resp.go
+++ b/msc_server/server/cmpp_terminate_resp.go
@@ -41,8 +41,9 @@ var cmppTerminateResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet
 
 func handleCmppTerminateResp(s *Server, sc *session, term *cmpp.TerminateRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index e702903..9722f25 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -32,5 +32,4 @@ func deferFunc(c gnet.Conn, s *Server, sc *session) {
 	sc.closeResource() // 关闭通道，释放线程池
 	s.removeSession(sc)
 	c.SetContext(nil)
-	sc.conn = nil
 }
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 9232444..5e2fef8 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -19,6 +19,8 @@ type session struct {
 	sync.Mutex
 	id          uint64
 	conn        gnet.Conn
+	remote      string          // 对端地址，连接关闭后 gnet.Conn 不再持有该信息
+	closed      bool            // 连接是否已关闭
 	clientId    string          // 客户端识别号，由服务端分配
 	serverName  string          // 连接的Server的name
 	ver         byte            // 协议版本号
@@ -50,6 +52,9 @@ func NewSession(c gnet.Conn) *session {
 	se.id = uint64(codec.B64Seq.NextVal())
 	se.stat = StatConnect
 	se.conn = c
+	if addr := c.RemoteAddr(); addr != nil {
+		se.remote = addr.String()
+	}
 	se.createTime = time.Now()
 	se.lastUseTime = time.Now()
 	return se
@@ -69,18 +74,23 @@ func createSessionSidePool(size int) *goroutine.Pool {
 	return pool
 }
 
-func (s *session) completeLogin(ac *codec.AuthConf) {
+// completeLogin 完成登录，如果连接已关闭返回false
+func (s *session) completeLogin(ac *codec.AuthConf) bool {
 	// 设置会话信息及会话级别资源，此代码非常重要！！！
 	s.Lock()
 	defer s.Unlock()
+	if s.closed {
+		return false
+	}
 	s.stat = StatLogin
 	s.ver = ac.Version
 	s.clientId = ac.ClientId
 	s.lastUseTime = time.Now()
-	s.closeResource()
+	s.releasePool()
 	s.window = make(chan struct{}, ac.MtWindowSize)
 	s.pool = createSessionSidePool(ac.MtWindowSize * 2)
 	s.setupLimiter(ac)
+	return true
 }
 
 func (s *session) setupLimiter(ac *codec.AuthConf) {
@@ -94,28 +104,33 @@ func (s *session) setupLimiter(ac *codec.AuthConf) {
 	s.limiter = rate.NewLimiter(limit, cap(s.window))
 }
 
-// 关闭通道和线程池
+// 标记会话已关闭并释放线程池，处理中的任务仍持有通道及连接，因此不可置空或关闭
 func (s *session) closeResource() {
 	if s == nil {
 		return
 	}
+	s.Lock()
+	defer s.Unlock()
+	s.closed = true
+	s.releasePool()
+}
 
-	if s.window != nil {
-		close(s.window)
-		s.window = nil
-	}
+// 释放线程池，调用前需持有锁
+func (s *session) releasePool() {
 	if s.pool != nil {
 		s.pool.Release()
-		s.pool = nil
 	}
-	s.limiter = nil
 }
 
 func (s *session) Window() chan struct{} {
+	s.Lock()
+	defer s.Unlock()
 	return s.window
 }
 
 func (s *session) Pool() *goroutine.Pool {
+	s.Lock()
+	defer s.Unlock()
 	return s.pool
 }
 
@@ -168,14 +183,15 @@ func (s *session) LogSession(size ...int) []log.Field {
 	} else if size[0] > 8 {
 		ret = make([]log.Field, 0, size[0])
 	}
-	cliName := s.clientId
+	s.Lock()
+	cliName, remote := s.clientId, s.remote
+	if s.closed {
+		remote = "closed"
+	}
+	s.Unlock()
 	if cliName == "" {
 		cliName = "not login"
 	}
-	remote := "closed"
-	if s.conn != nil {
-		remote = s.conn.RemoteAddr().String()
-	}
 	return append(ret,
 		log.String(SrvName, s.serverName),
 		log.String(CliName, cliName),
@@ -184,11 +200,10 @@ func (s *session) LogSession(size ...int) []log.Field {
 }
 
 func (s *session) LogCounter() []log.Field {
-	var mt, dlv, rpt uint64 = 0, 0, 0
-	if s != nil {
-		mt, dlv, rpt = s.counter.mt, s.counter.dly, s.counter.report
-	}
-	ac := msc.FindAuthConf(s.serverName, s.clientId)
+	s.Lock()
+	cnt, clientId, pool, window := s.counter, s.clientId, s.pool, s.window
+	s.Unlock()
+	ac := msc.FindAuthConf(s.serverName, clientId)
 	if ac == nil {
 		ac = &codec.AuthConf{}
 	}
@@ -196,20 +211,20 @@ func (s *session) LogCounter() []log.Field {
 	// 防止未登录而未初始化pool时的空指针异常。
 	free := 0
 	pcap := 0
-	if s.pool != nil {
-		free = s.pool.Free()
-		pcap = s.pool.Cap()
+	if pool != nil {
+		free = pool.Free()
+		pcap = pool.Cap()
 	}
 
 	return []log.Field{
 		log.Int(LogKeyClientConnsCap, ac.MaxConns),
 		log.Int(LogKeySessionPoolFree, free),
 		log.Int(LogKeySessionPoolCap, pcap),
-		log.Int(LogKeySessionSwCur, len(s.window)),
-		log.Int(LogKeySessionSwCap, cap(s.window)),
-		log.Uint64(LogKeyCounterMt, mt),
-		log.Uint64(LogKeyCounterDlv, dlv),
-		log.Uint64(LogKeyCounterRpt, rpt),
+		log.Int(LogKeySessionSwCur, len(window)),
+		log.Int(LogKeySessionSwCap, cap(window)),
+		log.Uint64(LogKeyCounterMt, cnt.mt),
+		log.Uint64(LogKeyCounterDlv, cnt.dly),
+		log.Uint64(LogKeyCounterRpt, cnt.report),
 	}
 }
 
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 1d747d9..5dbcaa7 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -60,9 +60,10 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == sgip.Status(0) {
-			sc.completeLogin(ac)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
+			if sc.completeLogin(ac) {
+				// 更新会话
+				s.SessionPool().Store(sc.id, sc)
+			}
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index ce53561..79439e3 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -52,8 +52,9 @@ var sgipSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
diff --git a/msc_server/server/sgip_unbind.go b/msc_server/server/sgip_unbind.go
index ca5fd78..d84962e 100644
--- a/msc_server/server/sgip_unbind.go
+++ b/msc_server/server/sgip_unbind.go
@@ -41,8 +41,9 @@ var sgipUnbind TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSgipUnbind(s *Server, sc *session, term *sgip.Unbind) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/sgip_unbind_resp.go b/msc_server/server/sgip_unbind_resp.go
index b620c91..ef6ef11 100644
--- a/msc_server/server/sgip_unbind_resp.go
+++ b/msc_server/server/sgip_unbind_resp.go
@@ -41,8 +41,9 @@ var sgipUnbindRsp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Con
 
 func handleSgipUnbindRsp(s *Server, sc *session, term *sgip.UnbindRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_active.go b/msc_server/server/smgp_active.go
index ae132eb..429141f 100644
--- a/msc_server/server/smgp_active.go
+++ b/msc_server/server/smgp_active.go
@@ -42,8 +42,9 @@ var smgpActive TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSmgpActive(s *Server, sc *session, pdu *smgp.ActiveTest) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_active_resp.go b/msc_server/server/smgp_active_resp.go
index 62cf4bc..1e25ad6 100644
--- a/msc_server/server/smgp_active_resp.go
+++ b/msc_server/server/smgp_active_resp.go
@@ -42,8 +42,9 @@ var smgpActiveResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Co
 
 func handleSmgpActiveResp(s *Server, sc *session, pdu *smgp.ActiveTestRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用ActiveResp进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_delivery_resp.go b/msc_server/server/smgp_delivery_resp.go
index 3872e2f..a17888e 100644
--- a/msc_server/server/smgp_delivery_resp.go
+++ b/msc_server/server/smgp_delivery_resp.go
@@ -42,8 +42,9 @@ var smgpDeliveryResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.
 
 func handleSmgpDeliveryResp(s *Server, sc *session, pdu *smgp.DeliverRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_exit.go b/msc_server/server/smgp_exit.go
index eb8c9e8..cf5dba7 100644
--- a/msc_server/server/smgp_exit.go
+++ b/msc_server/server/smgp_exit.go
@@ -41,8 +41,9 @@ var smgpExit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 
 func handleSmgpExit(s *Server, sc *session, term *smgp.Exit) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_exit_resp.go b/msc_server/server/smgp_exit_resp.go
index 06f199b..9d62f58 100644
--- a/msc_server/server/smgp_exit_resp.go
+++ b/msc_server/server/smgp_exit_resp.go
@@ -41,8 +41,9 @@ var smgpExitResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn
 
 func handleSmgpExitResp(s *Server, sc *session, term *smgp.ExitRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 47613d9..0187309 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -60,9 +60,10 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == smgp.Status(0) {
-			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
+			if sc.completeLogin(cli) {
+				// 更新会话
+				s.SessionPool().Store(sc.id, sc)
+			}
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index 29e8bba..d67eda7 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -54,8 +54,9 @@ var smgpSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	window := sc.Window()
+	window <- struct{}{}
+	defer func() { <-window }()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
-- 
2.43.0


From 6237a0a627d31243ecfee0bac4bdf047a2e65abd Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:27:22 +0000
Subject: [PATCH 28/64] fix: check the connection limit of an account and take
 the place in one step

---
 msc_server/server/cmpp_connect.go |  3 +--
 msc_server/server/server.go       | 24 +++++++++++++++++++++++-
 msc_server/server/session.go      |  6 ++++--
 msc_server/server/sgip_bind.go    |  3 +--
 msc_server/server/smgp_login.go   |  3 +--
 5 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index fd4cc09..c4d56de 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -50,8 +50,7 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	if code == cmpp.ConnStatusOK {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.reserveLogin(sc, cli) {
 			code = cmpp.ConnStatusOthers
 		}
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 2ce9504..ffc02ad 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -11,6 +11,7 @@ import (
 	"github.com/panjf2000/gnet/v2"
 	"github.com/panjf2000/gnet/v2/pkg/pool/goroutine"
 
+	"github.com/hrygo/gosms/codec"
 	bs "github.com/hrygo/gosms/msc_server"
 )
 
@@ -106,7 +107,7 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	defer s.Unlock()
 	s.sessionPool.Range(func(key, value any) bool {
 		s, ok := value.(*session)
-		if ok && s.clientId == clientId {
+		if ok && s.ClientId() == clientId {
 			counter += 1
 		}
 		return true
@@ -114,6 +115,27 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	return
 }
 
+// reserveLogin 为会话占用一个客户端连接名额，已达最大连接数时返回false，会话关闭时名额自动释放
+func (s *Server) reserveLogin(sc *session, ac *codec.AuthConf) bool {
+	s.Lock()
+	defer s.Unlock()
+	counter := 0
+	s.sessionPool.Range(func(key, value any) bool {
+		o, ok := value.(*session)
+		if ok && o != sc && o.ClientId() == ac.ClientId {
+			counter += 1
+		}
+		return true
+	})
+	if counter >= ac.MaxConns {
+		return false
+	}
+	sc.Lock()
+	defer sc.Unlock()
+	sc.clientId = ac.ClientId
+	return true
+}
+
 func (s *Server) ActiveSessions() int {
 	s.Lock()
 	defer s.Unlock()
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 5e2fef8..6e43d4a 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -74,12 +74,12 @@ func createSessionSidePool(size int) *goroutine.Pool {
 	return pool
 }
 
-// completeLogin 完成登录，如果连接已关闭返回false
+// completeLogin 完成登录，如果连接已关闭或名额已被同一连接上的另一登录请求取代则返回false
 func (s *session) completeLogin(ac *codec.AuthConf) bool {
 	// 设置会话信息及会话级别资源，此代码非常重要！！！
 	s.Lock()
 	defer s.Unlock()
-	if s.closed {
+	if s.closed || s.clientId != ac.ClientId {
 		return false
 	}
 	s.stat = StatLogin
@@ -146,6 +146,8 @@ func (s *session) Id() uint64 {
 }
 
 func (s *session) ClientId() string {
+	s.Lock()
+	defer s.Unlock()
 	return s.clientId
 }
 
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 5dbcaa7..f3ae73b 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -50,8 +50,7 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	if code == sgip.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(ac.ClientId)
-		if activeSession >= ac.MaxConns {
+		if !s.reserveLogin(sc, ac) {
 			code = sgip.Status(3)
 		}
 	}
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 0187309..778d534 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -50,8 +50,7 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	if code == smgp.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.reserveLogin(sc, cli) {
 			code = smgp.Status(2)
 		}
 	}
-- 
2.43.0


From 0d236b0c705a98f953987670a13a1fd05ebcbe15 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:28:16 +0000
Subject: [PATCH 29/64] fix: answer submissions of accounts stored under
 another name than their client id

---
 msc_server/server/cmpp_submit.go | 4 ++--
 msc_server/server/sgip_submit.go | 4 ++--
 msc_server/server/smgp_submit.go | 9 ++++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index 4f43296..c73bea6 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -92,8 +92,8 @@ func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func cmppSubmitPacketCheck(s *session, mt *cmpp.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
-	check := strings.HasPrefix(mt.SrcId(), cli.SmsDisplayNo)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	check := cli != nil && strings.HasPrefix(mt.SrcId(), cli.SmsDisplayNo)
 	if check {
 		check = mt.MsgLevel() < 10
 	}
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index 79439e3..a58e285 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -88,8 +88,8 @@ func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func sgipSubmitPacketCheck(s *session, mt *sgip.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
-	check := strings.HasPrefix(mt.SPNumber, cli.SmsDisplayNo)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	check := cli != nil && strings.HasPrefix(mt.SPNumber, cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority < 10
 	}
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index d67eda7..f8a2dde 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -93,8 +93,8 @@ func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func smgpSubmitPacketCheck(s *session, mt *smgp.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
-	check := strings.HasPrefix(mt.SrcTermID(), cli.SmsDisplayNo)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	check := cli != nil && strings.HasPrefix(mt.SrcTermID(), cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority() < 4
 	}
@@ -110,7 +110,10 @@ func mockSendSmgpReport(sc *session, sub *smgp.Submit, msgId []byte) {
 	}
 	msg := fmt.Sprintf("[%s] OnTraffic %s", sc.serverName, SD)
 
-	cli := msc.FindAuthConf(sc.serverName, sc.clientId)
+	cli := msc.FindAuthConf(sc.serverName, sc.ClientId())
+	if cli == nil {
+		cli = &codec.AuthConf{Version: sc.ver}
+	}
 	dly := smgp.NewDeliveryReport(cli, sub, uint32(codec.B32Seq.NextVal()), msgId)
 	// 模拟状态报告发送前的耗时
 	ms := msc.ConfigYml.GetInt("Server.Mock.FixReportRespMs")
-- 
2.43.0


From 0caafaca1487fcedd2fb25fe151e8cf18bb56d2d Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 30/64] fix: handle every complete packet of a read and leave
 what follows a header-only packet

---
 msc_server/server/on_traffic.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 0bc76ad..4a52456 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -17,18 +17,24 @@ import (
 )
 
 func (s *Server) OnTraffic(c gnet.Conn) (action gnet.Action) {
-	cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
-	if ok {
+	// 一次读事件可能包含多个数据包，需全部处理
+	for {
+		cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
+		if !ok {
+			return action
+		}
 		switch s.name {
 		case CMPP:
-			return ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
 		case SGIP:
-			return ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
 		case SMGP:
-			return ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+		}
+		if action != gnet.None {
+			return action
 		}
 	}
-	return action
 }
 
 // TrafficHandler Don't Read From gnet.Conn.
@@ -94,8 +100,12 @@ func DecodeAndCheckHeader(s *Server, c gnet.Conn) (cmd uint32, seq uint32, buff
 	_, _ = c.Discard(12)
 
 	// 读取消息体
-	buff, _ = c.Peek(int(pkl - 12))
-	_, _ = c.Discard(int(pkl - 12))
+	// gnet中Peek、Discard的参数不为正数时，会操作全部缓存
+	buff = nil
+	if pkl > codec.HeadLen {
+		buff, _ = c.Peek(int(pkl - 12))
+		_, _ = c.Discard(int(pkl - 12))
+	}
 	// buff returned by Peek() is not allowed to be passed to a new goroutine, as this []byte will be reused within event-loop.
 	// If you have to use buf in a new goroutine, then you need to make a copy of buf and pass this copy to that new goroutine.
 	newBuff := make([]byte, len(buff))
-- 
2.43.0


From 7c982cfb6e887b7c993a79821e4c4700a321fb4e Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 31/64] fix: do not block the event loop while an ended session
 is given its second

---
 msc_server/server/on_tick.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index 45e6dc6..599ab5a 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -179,10 +179,9 @@ func sendTerminate(s *Server, sc *session) {
 		}
 		pack := term.Encode()
 		err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
-			_ = sc.Conn().Flush()
-			// 给对方预留1秒钟响应连接关闭事件
-			time.Sleep(time.Second)
-			_ = sc.Conn().Close()
+			_ = c.Flush()
+			// 给对方预留1秒钟响应连接关闭事件，此处不可阻塞 event-loop
+			time.AfterFunc(time.Second, func() { _ = c.Close() })
 			return nil
 		})
 		if err == nil {
-- 
2.43.0


From e744eea6fcb4772766eef43ab9744a8303a39490 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:28:39 +0000
Subject: [PATCH 32/64] fix: leave flushing to the event loop when a logout is
 answered

---
 msc_server/server/cmpp_terminate_resp.go | 1 -
 msc_server/server/sgip_unbind_resp.go    | 1 -
 msc_server/server/smgp_exit_resp.go      | 1 -
 3 files changed, 3 deletions(-)

diff --git a/msc_server/server/cmpp_terminate_resp.go b/msc_server/server/cmpp_terminate_resp.go
index 9feaa0d..ff7e6b8 100644
--- a/msc_server/server/cmpp_terminate_resp.go
+++ b/msc_server/server/cmpp_terminate_resp.go
@@ -51,6 +51,5 @@ func handleCmppTerminateResp(s *Server, sc *session, term *cmpp.TerminateRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
diff --git a/msc_server/server/sgip_unbind_resp.go b/msc_server/server/sgip_unbind_resp.go
index ef6ef11..3ed3e1a 100644
--- a/msc_server/server/sgip_unbind_resp.go
+++ b/msc_server/server/sgip_unbind_resp.go
@@ -51,6 +51,5 @@ func handleSgipUnbindRsp(s *Server, sc *session, term *sgip.UnbindRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
diff --git a/msc_server/server/smgp_exit_resp.go b/msc_server/server/smgp_exit_resp.go
index 9d62f58..4635407 100644
--- a/msc_server/server/smgp_exit_resp.go
+++ b/msc_server/server/smgp_exit_resp.go
@@ -51,6 +51,5 @@ func handleSmgpExitResp(s *Server, sc *session, term *smgp.ExitRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
-- 
2.43.0


From d1b9e376d56aff9371d98b6443178e743774a423 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:28:59 +0000
Subject: [PATCH 33/64] fix: guard status, last use and heartbeat count of a
 session by its lock

---
 msc_server/server/cmpp_connect.go       |  2 +-
 msc_server/server/cmpp_delivery_resp.go |  3 +--
 msc_server/server/on_tick.go            | 10 +++++-----
 msc_server/server/on_traffic.go         |  4 ++--
 msc_server/server/session.go            | 23 +++++++++++++++++++++++
 msc_server/server/sgip_bind.go          |  2 +-
 msc_server/server/smgp_delivery_resp.go |  3 +--
 msc_server/server/smgp_login.go         |  2 +-
 msc_server/server/smgp_submit.go        |  2 +-
 9 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index c4d56de..8763bfb 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -65,7 +65,7 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 			}
 		} else {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.setStat(StatClosing)
 			_ = c.Flush()
 			_ = c.Close()
 		}
diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 29081f6..bc177b0 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"fmt"
-	"time"
 
 	"github.com/hrygo/log"
 	"github.com/panjf2000/gnet/v2"
@@ -50,6 +49,6 @@ func handleCmppDeliveryResp(s *Server, sc *session, pdu *cmpp.DeliveryRsp) {
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 	// 打印报文
 	log.Debug(msg, FlatMapLog(sc.LogSession(), pdu.Log())...)
-	sc.lastUseTime = time.Now()
+	sc.touch()
 	// TODO more actions
 }
diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index 599ab5a..38e3d1f 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -33,11 +33,11 @@ func (s *Server) OnTick() (delay time.Duration, action gnet.Action) {
 				log.Info(msg, FlatMapLog(session.LogSession(), session.LogCounter())...)
 			}
 			// 发送心跳测试
-			if pass && session.stat == StatLogin {
+			if pass && session.Stat() == StatLogin {
 				activeTest(s, session)
 			}
 			// 发送模拟上行消息
-			if pass && session.stat == StatLogin {
+			if pass && session.Stat() == StatLogin {
 				mockDelivery(s, session)
 			}
 		}
@@ -47,7 +47,7 @@ func (s *Server) OnTick() (delay time.Duration, action gnet.Action) {
 }
 
 func activeTestNoneResponseCheck(s *Server, sc *session) bool {
-	if sc.nAt > 2 {
+	if sc.NAt() > 2 {
 		msg := fmt.Sprintf("[%s] OnTick ===", s.name)
 		// 发送关闭指令
 		sendTerminate(s, sc)
@@ -74,7 +74,7 @@ func closeCheck(s *Server, sc *session) bool {
 func activeTest(s *Server, sc *session) {
 	_ = s.goPool.Submit(func() {
 		// 如果使用时间在1分钟前则发送心跳
-		if sc.lastUseTime.Add(time.Minute).Before(time.Now()) {
+		if sc.LastUseTime().Add(time.Minute).Before(time.Now()) {
 			msg := fmt.Sprintf("[%s] OnTick %s", s.name, SD)
 			var active codec.RequestPdu
 			var seq = uint32(codec.B32Seq.NextVal())
@@ -119,7 +119,7 @@ func mockDelivery(s *Server, sc *session) {
 		return
 	}
 
-	cli := msc.FindAuthConf(s.name, sc.clientId)
+	cli := msc.FindAuthConf(s.name, sc.ClientId())
 	if cli == nil {
 		return
 	}
diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 4a52456..3d461b1 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -118,7 +118,7 @@ func DecodeAndCheckHeader(s *Server, c gnet.Conn) (cmd uint32, seq uint32, buff
 // 流量控制检查，如果检查不通过返回客户端 errCode 指定的错误码
 func submitFlowControl(sc *session, mt codec.RequestPdu, errCode uint32) bool {
 	// 限速检查
-	ok := sc.limiter.Allow()
+	ok := sc.Limiter().Allow()
 	if !ok {
 		//  流量控制错误响应结果异步发送
 		_ = sc.Pool().Submit(func() {
@@ -148,7 +148,7 @@ func sendSubmitResponse(sc *session, pdu codec.RequestPdu, result uint32) (codec
 }
 
 func sessionCheck(s *session) bool {
-	if s.stat != StatLogin {
+	if s.Stat() != StatLogin {
 		log.Error(fmt.Sprintf("[%s] OnTraffic %s", s.ServerName(), RC),
 			FlatMapLog(s.LogSession(), []log.Field{OpConnectionClose.Field(), SErrField(msc.ErrorsDecodePacketBody)})...)
 		return false
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 6e43d4a..285d463 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -152,14 +152,20 @@ func (s *session) ClientId() string {
 }
 
 func (s *session) Ver() byte {
+	s.Lock()
+	defer s.Unlock()
 	return s.ver
 }
 
 func (s *session) Stat() stat {
+	s.Lock()
+	defer s.Unlock()
 	return s.stat
 }
 
 func (s *session) NAt() byte {
+	s.Lock()
+	defer s.Unlock()
 	return s.nAt
 }
 
@@ -168,10 +174,14 @@ func (s *session) CreateTime() time.Time {
 }
 
 func (s *session) LastUseTime() time.Time {
+	s.Lock()
+	defer s.Unlock()
 	return s.lastUseTime
 }
 
 func (s *session) Limiter() *rate.Limiter {
+	s.Lock()
+	defer s.Unlock()
 	return s.limiter
 }
 
@@ -234,6 +244,19 @@ func (s *session) ServerName() string {
 	return s.serverName
 }
 
+func (s *session) setStat(st stat) {
+	s.Lock()
+	defer s.Unlock()
+	s.stat = st
+}
+
+// touch 更新会话的使用时间
+func (s *session) touch() {
+	s.Lock()
+	defer s.Unlock()
+	s.lastUseTime = time.Now()
+}
+
 func (s *session) CounterAddMt() {
 	s.Lock()
 	defer s.Unlock()
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index f3ae73b..3a8f424 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -65,7 +65,7 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 			}
 		} else {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.setStat(StatClosing)
 			_ = c.Flush()
 			_ = c.Close()
 		}
diff --git a/msc_server/server/smgp_delivery_resp.go b/msc_server/server/smgp_delivery_resp.go
index a17888e..65cc8b9 100644
--- a/msc_server/server/smgp_delivery_resp.go
+++ b/msc_server/server/smgp_delivery_resp.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"fmt"
-	"time"
 
 	"github.com/hrygo/log"
 	"github.com/panjf2000/gnet/v2"
@@ -50,7 +49,7 @@ func handleSmgpDeliveryResp(s *Server, sc *session, pdu *smgp.DeliverRsp) {
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 	// 打印报文
 	log.Debug(msg, FlatMapLog(sc.LogSession(), pdu.Log())...)
-	sc.lastUseTime = time.Now()
+	sc.touch()
 
 	// TODO more actions
 }
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 778d534..fadfb22 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -65,7 +65,7 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 			}
 		} else {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.setStat(StatClosing)
 			_ = c.Flush()
 			_ = c.Close()
 		}
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index f8a2dde..0fb0bfc 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -112,7 +112,7 @@ func mockSendSmgpReport(sc *session, sub *smgp.Submit, msgId []byte) {
 
 	cli := msc.FindAuthConf(sc.serverName, sc.ClientId())
 	if cli == nil {
-		cli = &codec.AuthConf{Version: sc.ver}
+		cli = &codec.AuthConf{Version: sc.Ver()}
 	}
 	dly := smgp.NewDeliveryReport(cli, sub, uint32(codec.B32Seq.NextVal()), msgId)
 	// 模拟状态报告发送前的耗时
-- 
2.43.0


From 332cd990d4e759ec45c0832e2f9008bb0cb3a474 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:30:26 +0000
Subject: [PATCH 34/64] fix: read whole packets in the client session however
 the stream is cut

---
 msc_client/session/session.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 00ff0bd..42fa590 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"sync"
 	"time"
@@ -117,8 +118,8 @@ func (s *Session) startReceiver() {
 						return
 					}
 					head := make([]byte, 12)
-					n, err := s.con.Read(head)
-					if n != 12 || err != nil {
+					_, err := io.ReadFull(s.con, head)
+					if err != nil {
 						log.Errorf("[%s] Read Packet Head error: %v. Session closing...", s.serverName, err)
 						s.Close()
 						return
@@ -137,8 +138,8 @@ func (s *Session) startReceiver() {
 					var bodyLen = int(pkl) - 12
 					if bodyLen > 0 {
 						buff = make([]byte, bodyLen)
-						n, err = s.con.Read(buff)
-						if n != bodyLen || err != nil {
+						_, err = io.ReadFull(s.con, buff)
+						if err != nil {
 							log.Errorf("[%s] Read Packet Body error: %v. Session closing...", s.serverName, err)
 							s.Close()
 							return
@@ -196,14 +197,18 @@ func (s *Session) login() error {
 	log.Info(fmt.Sprintf("[%s] Send login to %v.", s.serverName, s.con.RemoteAddr()), pdu.Log()...)
 
 	data := make([]byte, respLen)
-	n, err := s.con.Read(data[:])
-	if err != nil || n != respLen {
+	_, err = io.ReadFull(s.con, data[:12])
+	if err != nil {
 		return err
 	}
 
 	var pkl = binary.BigEndian.Uint32(data[:4])
-	if pkl != uint32(n) {
-		return errors.New(fmt.Sprintf("[%s] Packet length error: expect %d, got %d", s.serverName, n, pkl))
+	if pkl != uint32(respLen) {
+		return errors.New(fmt.Sprintf("[%s] Packet length error: expect %d, got %d", s.serverName, respLen, pkl))
+	}
+	_, err = io.ReadFull(s.con, data[12:])
+	if err != nil {
+		return err
 	}
 	var cmd = binary.BigEndian.Uint32(data[4:8])
 	var seq = binary.BigEndian.Uint32(data[8:12])
-- 
2.43.0


From 35e4df09856f1929239d2e36a62df3e97e165e80 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:30:28 +0000
Subject: [PATCH 35/64] fix: close the connection of a failed login

---
 msc_client/session/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 42fa590..0ae02bf 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -50,6 +50,7 @@ func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 	err := sc.login()
 	if err != nil {
 		log.Error("create session error: " + err.Error())
+		_ = con.Close()
 		return nil
 	}
 	sc.cancel = make(chan struct{}, 1)
-- 
2.43.0


From 5b0615663260f0fcae0ed30f58a66cfa43451be9 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:31:00 +0000
Subject: [PATCH 36/64] fix: store the result of a message before sending it

---
 msc_client/session/on_traffic_cmpp.go | 13 +++++++------
 msc_client/session/on_traffic_sgip.go | 13 +++++++------
 msc_client/session/on_traffic_smgp.go | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 0eabd81..7926873 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -15,20 +15,21 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := cmpp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*cmpp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 响应可能在发送返回前到达，需先存储再发送
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
 			return nil
 		}
-		mtt := mt.(*cmpp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index e1163d1..e79f42a 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -14,20 +14,21 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := sgip.NewSubmit(s.authConf, []string{phone}, message, options...)
 	for _, mt := range mts {
+		mtt := mt.(*sgip.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = mtt.Sequence2Uint64()
+		r.Phone = phone
+		// 响应可能在发送返回前到达，需先存储再发送
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
 			return nil
 		}
-		mtt := mt.(*sgip.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = mtt.Sequence2Uint64()
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index dffad5a..3840f91 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -15,20 +15,21 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := smgp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*smgp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 响应可能在发送返回前到达，需先存储再发送
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
 			return nil
 		}
-		mtt := mt.(*smgp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
-- 
2.43.0


From f3b6a7b76ebc14a1b70a32ff5512187dfecf601e Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:31:02 +0000
Subject: [PATCH 37/64] fix: find the result of a CMPP or SMGP response by the
 key it was stored under

---
 msc_client/session/on_traffic_cmpp.go | 2 +-
 msc_client/session/on_traffic_smgp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 7926873..fddc455 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -84,7 +84,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			log.Error(err.Error())
 			s.Close()
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = sub.Result()
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 3840f91..1b29872 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -84,7 +84,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			log.Error(err.Error())
 			s.Close()
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = uint32(sub.Status())
-- 
2.43.0


From 70e1454936617a394bddc7f672825a6786739998 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:31:04 +0000
Subject: [PATCH 38/64] fix: survive a refused login response and drop an
 undecodable submit response

---
 msc_client/session/on_traffic_cmpp.go | 3 ++-
 msc_client/session/on_traffic_sgip.go | 3 ++-
 msc_client/session/on_traffic_smgp.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index fddc455..6a08a13 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -45,7 +45,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		err := resp.Decode(seq, buff)
 		log.Info(receive, resp.Log()...)
 		if err != nil || resp.Status() != cmpp.ConnStatusOK {
-			log.Error(err.Error())
+			log.Error(receive, resp.Log()...)
 			s.Close()
 		}
 	case cmpp.CMPP_ACTIVE_TEST:
@@ -83,6 +83,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index e79f42a..71595da 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -45,7 +45,7 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		err := resp.Decode(seq, buff)
 		log.Info(receive, resp.Log()...)
 		if err != nil || resp.Status != sgip.Status(0) {
-			log.Error(err.Error())
+			log.Error(receive, resp.Log()...)
 			s.Close()
 		}
 	case sgip.SGIP_UNBIND:
@@ -68,6 +68,7 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 1b29872..a85a7ec 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -45,7 +45,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		err := resp.Decode(seq, buff)
 		log.Info(receive, resp.Log()...)
 		if err != nil || resp.Status() != smgp.Status(0) {
-			log.Error(err.Error())
+			log.Error(receive, resp.Log()...)
 			s.Close()
 		}
 	case smgp.SMGP_ACTIVE_TEST:
@@ -83,6 +83,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
-- 
2.43.0


From b9f5c9e134bde4fe5e3e3661886399c345930a94 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 39/64] fix: close a client session once and keep it usable for
 those still holding it

---
 msc_client/session/on_traffic_cmpp.go |  2 +-
 msc_client/session/on_traffic_sgip.go |  2 +-
 msc_client/session/on_traffic_smgp.go |  2 +-
 msc_client/session/session.go         | 30 +++++++++++++++++++++------
 4 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 6a08a13..1536779 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -35,7 +35,7 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 71595da..aa4ba2c 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -35,7 +35,7 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 
 func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index a85a7ec..2cbe874 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -35,7 +35,7 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 0ae02bf..5e7e9f7 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -54,13 +54,22 @@ func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 		return nil
 	}
 	sc.cancel = make(chan struct{}, 1)
-	sc.startReceiver()
 	sc.createTime = time.Now()
 	sc.activeTime = time.Now()
+	sc.startReceiver()
 	return sc
 }
 
+// touch 更新活跃时间
+func (s *Session) touch() {
+	s.Lock()
+	defer s.Unlock()
+	s.activeTime = time.Now()
+}
+
 func (s *Session) ResetCounter() {
+	s.Lock()
+	defer s.Unlock()
 	s.periodCounter = 0
 }
 
@@ -82,24 +91,27 @@ func (s *Session) LruPriority() uint64 {
 	if !s.HealthCheck() {
 		return 0
 	}
+	s.Lock()
+	defer s.Unlock()
 	return 1e10 - s.periodCounter
 }
 
 func (s *Session) Close() {
-	if s == nil || s.stat == StatClosing {
+	if s == nil {
 		return
 	}
 
 	s.Lock()
 	defer s.Unlock()
+	if s.stat == StatClosing {
+		return
+	}
 
 	// 关闭连接
 	s.stat = StatClosing
 	_ = s.con.Close()
 	// 发送取消信号
 	s.cancel <- struct{}{}
-	s.con = nil
-	s.authConf = nil
 }
 
 // startReceiver 启动接收服务
@@ -267,10 +279,16 @@ func (s *Session) login() error {
 }
 
 func (s *Session) HealthCheck() bool {
-	ok := s != nil && s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
+	if s == nil {
+		return false
+	}
+	s.Lock()
+	ok := s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
+	activeTime := s.activeTime
+	s.Unlock()
 
 	// 活跃状态为1分钟前，则发送心跳验证
-	if ok && s.activeTime.Add(time.Minute).Before(time.Now()) {
+	if ok && activeTime.Add(time.Minute).Before(time.Now()) {
 		err := s.ActiveTest()
 		if err != nil {
 			return false
-- 
2.43.0


From 556eae1c3440c8eea9b0ad6c876957de4baa7a25 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 40/64] fix: count a session whose heartbeat cannot be sent as
 unhealthy

---
 msc_client/session/session.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 5e7e9f7..e11ecc7 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -128,6 +128,7 @@ func (s *Session) startReceiver() {
 				{
 					if !s.HealthCheck() {
 						log.Warnf("[%s] Session status incorrect, Receiver exit!", s.serverName)
+						s.Close()
 						return
 					}
 					head := make([]byte, 12)
@@ -317,7 +318,7 @@ func (s *Session) ActiveTest() error {
 		log.Info(msg, active.Log()...)
 	} else {
 		log.Error(msg + err.Error())
-		return nil
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From 35dc0197d37b0ce90e003af2e0302fe627e3c5c1 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:31:30 +0000
Subject: [PATCH 41/64] fix: answer a query for a send without results with
 nothing

---
 msc_client/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/api.go b/msc_client/api.go
index a8da77c..d430146 100644
--- a/msc_client/api.go
+++ b/msc_client/api.go
@@ -43,7 +43,7 @@ func Query(queryId int64) []any {
 	value, ok := resultQueryCacheMap.Load(queryId)
 	if ok {
 		result, ok := value.([]any)
-		if ok {
+		if ok && len(result) > 0 {
 			_, ok := result[0].(*session.Result)
 			if ok {
 				return result
-- 
2.43.0


From adfe58ed5b3db18db0265c595953d3003c5ed316 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:31:46 +0000
Subject: [PATCH 42/64] fix: hand out any healthy session instead of waiting
 for the first one

---
 msc_client/session_factory.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 05e184b..e0bdc2a 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -146,18 +146,22 @@ func (f *SessionFactory) PeekSession() *session.Session {
 		return nil
 	}
 
-	if len(f.sessions) > 0 && f.sessions[0] == nil && f.sessions[0].HealthCheck() {
-		return f.sessions[0]
-	}
-
-	var ret *session.Session
-	for ret == nil || !ret.HealthCheck() {
-		time.Sleep(time.Millisecond)
-		if len(f.sessions) > 0 {
-			ret = f.sessions[0]
+	for {
+		// 排在前面的会话失效时，取其后首个正常的会话
+		for _, sc := range f.snapshot() {
+			if sc.HealthCheck() {
+				return sc
+			}
 		}
+		time.Sleep(time.Millisecond)
 	}
-	return ret
+}
+
+// snapshot 返回当前会话列表的副本
+func (f *SessionFactory) snapshot() []*session.Session {
+	f.Lock()
+	defer f.Unlock()
+	return append([]*session.Session(nil), f.sessions...)
 }
 
 // StartCacheExpireTicker 过期数据定期检查器
@@ -300,7 +304,7 @@ func (f *SessionFactory) lruSort(cancel <-chan bool) {
 	f.sessions = newSlice
 	f.Unlock()
 
-	for len(f.sessions) < maxConns {
+	for len(f.snapshot()) < maxConns {
 		select {
 		case <-cancel:
 			log.Info("Receive signal and stop create new connects.")
@@ -349,7 +353,7 @@ func (f *SessionFactory) newConnect() {
 func (f *SessionFactory) RegCloseSessionsHooker() {
 	event_manager.RegisterShutdownHooker(fmt.Sprintf("CloseSessionHooker_%p", f), func(args ...any) {
 		close(f.window)
-		for _, sc := range f.sessions {
+		for _, sc := range f.snapshot() {
 			sc.Close()
 			log.Warnf("session %p closed.", sc)
 		}
-- 
2.43.0


From 26b1338e166e9aabdfea51d17e66cd44a0e4c8b1 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 43/64] fix: create only one session factory per carrier under
 concurrent callers

---
 msc_client/session_factory.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index e0bdc2a..b7202f6 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -49,7 +49,7 @@ func SelectSession(phone string) *session.Session {
 	var fa *SessionFactory
 	for i, factory := range factories {
 		if factory == nil {
-			factory = CreateSessionFactory(ISPS[i])
+			factory = createSessionFactory(ISPS[i])
 			if factory == nil {
 				continue
 			}
@@ -69,6 +69,13 @@ func SelectSession(phone string) *session.Session {
 
 // CreateSessionFactory 创建或获取由isp指定的factory，isp需与sms.yml配置文件对应，否则会引起程序崩溃
 func CreateSessionFactory(isp string) *SessionFactory {
+	mu.Lock()
+	defer mu.Unlock()
+	return createSessionFactory(isp)
+}
+
+// createSessionFactory 调用前需持有mu
+func createSessionFactory(isp string) *SessionFactory {
 	isp = strings.ToLower(isp)
 	saved := factories[ISP(isp).Int()]
 	if saved != nil {
-- 
2.43.0


From 861598d9fa0dab5c162453d1316e84b8a0b1d094 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 19:32:14 +0000
Subject: [PATCH 44/64] fix: let a client factory be shut down twice and add no
 session afterwards

---
 msc_client/session_factory.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index b7202f6..6700a85 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -38,6 +38,7 @@ type SessionFactory struct {
 	serverAddr string
 	authConf   *codec.AuthConf
 	sessions   []*session.Session
+	closed     bool // 是否已执行停机钩子
 	window     chan struct{}
 	limiter    *rate.Limiter
 	regex      *regexp.Regexp
@@ -349,8 +350,13 @@ func (f *SessionFactory) newConnect() {
 		sc := session.NewSession(f.srvName, f.authConf, c)
 		if sc != nil {
 			f.Lock()
+			defer f.Unlock()
+			if f.closed {
+				// 已停机，不再加入新会话
+				sc.Close()
+				return
+			}
 			f.sessions = append(f.sessions, sc)
-			f.Unlock()
 		}
 	} else {
 		log.Error(err.Error())
@@ -359,7 +365,12 @@ func (f *SessionFactory) newConnect() {
 
 func (f *SessionFactory) RegCloseSessionsHooker() {
 	event_manager.RegisterShutdownHooker(fmt.Sprintf("CloseSessionHooker_%p", f), func(args ...any) {
-		close(f.window)
+		f.Lock()
+		if !f.closed {
+			f.closed = true
+			close(f.window)
+		}
+		f.Unlock()
 		for _, sc := range f.snapshot() {
 			sc.Close()
 			log.Warnf("session %p closed.", sc)
-- 
2.43.0


From 472f57a280be9eb3ed7e9da3ec940db25c50b8bc Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 21:06:28 +0000
Subject: [PATCH 45/64] fix: count a request as activity when it is received,
 not only when it was answered

---
 msc_server/server/on_traffic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 3d461b1..8f5bc5e 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -23,6 +23,8 @@ func (s *Server) OnTraffic(c gnet.Conn) (action gnet.Action) {
 		if !ok {
 			return action
 		}
+		// 收到完整的数据包即为客户端活动，此时更新使用时间，以免处理过程中被当作不活动的会话关闭
+		Session(c).touch()
 		switch s.name {
 		case CMPP:
 			action = ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
-- 
2.43.0


From f6db77f2126025309a252556001fa4597a609d2c Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 46/64] fix: close the session instead of crashing on a
 malformed SGIP packet from the gateway

---
 msc_client/session/on_traffic_sgip.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index aa4ba2c..7fce9af 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -43,14 +43,23 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 	case sgip.SGIP_BIND_RESP:
 		resp := &sgip.BindRsp{}
 		err := resp.Decode(seq, buff)
+		if err != nil {
+			log.Error(err.Error())
+			s.Close()
+			return
+		}
 		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status != sgip.Status(0) {
+		if resp.Status != sgip.Status(0) {
 			log.Error(receive, resp.Log()...)
 			s.Close()
 		}
 	case sgip.SGIP_UNBIND:
 		term := &sgip.Unbind{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			log.Error(err.Error())
+			s.Close()
+			return
+		}
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
 		_, _ = s.con.Write(resp.Encode())
@@ -58,18 +67,22 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		s.Close()
 	case sgip.SGIP_UNBIND_RESP:
 		term := &sgip.UnbindRsp{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			log.Error(err.Error())
+			s.Close()
+			return
+		}
 		log.Info(receive, term.Log()...)
 		s.Close()
 	case sgip.SGIP_SUBMIT_RESP:
 		sub := &sgip.SubmitRsp{}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
 			mtr := result.(*Result)
-- 
2.43.0


From e22b20a1d138e6dc1f3f325b5e366e0647e0335d Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 47/64] fix: do not log a delivery that could not be decoded: a
 report cut short crashed the client

---
 msc_client/session/on_traffic_cmpp.go | 2 +-
 msc_client/session/on_traffic_smgp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 1536779..3711498 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -97,12 +97,12 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_DELIVER:
 		dly := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.con.Write(resp.Encode())
 		log.Debug(send, resp.Log()...)
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 2cbe874..692c5e2 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -97,12 +97,12 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_DELIVER:
 		dly := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.con.Write(resp.Encode())
 		log.Debug(send, resp.Log()...)
-- 
2.43.0


From 3f16eb9d364fc870e9ae68f2462deb797470e265 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 48/64] fix: read all four octets of the CMPP 3 login status,
 256 is no success

---
 codec/cmpp/connect.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index ae8bb42..aecdd10 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -183,10 +183,12 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 
 	var index int
 	if V30.MajorMatchV(r.Version) {
-		index += 3
+		r.status = ConnStatus(binary.BigEndian.Uint32(frame[index : index+4]))
+		index += 4
+	} else {
+		r.status = ConnStatus(frame[index])
+		index++
 	}
-	r.status = ConnStatus(frame[index])
-	index += 1
 	r.authenticatorISMG = frame[index : index+16]
 	index += 16
 	r.Version = Version(frame[index])
@@ -224,7 +226,7 @@ func (r *ConnectResp) Status() ConnStatus {
 	return r.status
 }
 
-type ConnStatus byte
+type ConnStatus uint32
 
 const (
 	ConnStatusOK ConnStatus = iota
-- 
2.43.0


From a0fac7cdd92fdf52f1dde20013d42873042154c4 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 49/64] fix: give up a login the gateway does not answer, it
 blocked all carriers

---
 msc_client/session/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index e11ecc7..195dc06 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -42,6 +42,9 @@ const (
 	CMPP = "cmpp"
 	SGIP = "sgip"
 	SMGP = "smgp"
+
+	// 登录及心跳的超时时间
+	ioTimeout = 10 * time.Second
 )
 
 // NewSession 创建一个新会话并登录，且启动定时器和接收服务
@@ -204,6 +207,8 @@ func (s *Session) login() error {
 		}
 	}
 
+	// 网关不应答时不能一直等待
+	_ = s.con.SetDeadline(time.Now().Add(ioTimeout))
 	_, err := s.con.Write(pdu.Encode())
 	if err != nil {
 		return err
@@ -274,6 +279,7 @@ func (s *Session) login() error {
 			log.Info(fmt.Sprintf("[%s] Login result", s.serverName), resp.Log()...)
 		}
 	}
+	_ = s.con.SetDeadline(time.Time{})
 	s.stat = StatLogin
 	s.activeTime = time.Now()
 	return nil
-- 
2.43.0


From c424f77720b29d3881544f373691b0c9162d3f3e Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 50/64] fix: do not wait forever for a heartbeat the gateway
 does not take, it blocked the other sessions

---
 msc_client/session/session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 195dc06..a60d86e 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -298,6 +298,7 @@ func (s *Session) HealthCheck() bool {
 	if ok && activeTime.Add(time.Minute).Before(time.Now()) {
 		err := s.ActiveTest()
 		if err != nil {
+			s.Close()
 			return false
 		}
 	}
@@ -319,7 +320,10 @@ func (s *Session) ActiveTest() error {
 		return nil
 	}
 	pack := active.Encode()
+	// 网关不接收时不能一直等待
+	_ = s.con.SetWriteDeadline(time.Now().Add(ioTimeout))
 	_, err := s.con.Write(pack)
+	_ = s.con.SetWriteDeadline(time.Time{})
 	if err == nil {
 		log.Info(msg, active.Log()...)
 	} else {
-- 
2.43.0


From b7e909c056c387fea22c88adfe381d940ef02611 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 51/64] fix: sort the sessions at every period also while a
 replacement is refused

---
 msc_client/session_factory.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 6700a85..6360b49 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -39,6 +39,7 @@ type SessionFactory struct {
 	authConf   *codec.AuthConf
 	sessions   []*session.Session
 	closed     bool // 是否已执行停机钩子
+	filling    bool // 是否正在补充会话
 	window     chan struct{}
 	limiter    *rate.Limiter
 	regex      *regexp.Regexp
@@ -310,9 +311,22 @@ func (f *SessionFactory) lruSort(cancel <-chan bool) {
 	}
 	// 使用新切片替换原列表
 	f.sessions = newSlice
+	// 补充会话不能影响定期排序
+	if !f.filling && !f.closed && len(newSlice) < maxConns {
+		f.filling = true
+		go f.fill(maxConns, cancel)
+	}
 	f.Unlock()
+}
 
-	for len(f.snapshot()) < maxConns {
+// fill 将会话补充到maxConns个
+func (f *SessionFactory) fill(maxConns int, cancel <-chan bool) {
+	defer func() {
+		f.Lock()
+		f.filling = false
+		f.Unlock()
+	}()
+	for f.lacks(maxConns) {
 		select {
 		case <-cancel:
 			log.Info("Receive signal and stop create new connects.")
@@ -325,6 +339,13 @@ func (f *SessionFactory) lruSort(cancel <-chan bool) {
 	}
 }
 
+// lacks 会话是否不足
+func (f *SessionFactory) lacks(maxConns int) bool {
+	f.Lock()
+	defer f.Unlock()
+	return !f.closed && len(f.sessions) < maxConns
+}
+
 func (f *SessionFactory) Len() int {
 	return len(f.sessions)
 }
-- 
2.43.0


From c7755a09302156ea7a1b549f68b80092197b44ff Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 23:29:58 +0000
Subject: [PATCH 52/64] fix: the CMPP login response carries MD5(status +
 authenticatorSource + secret) as the protocol defines

---
 codec/cmpp/connect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index aecdd10..c816cdb 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -137,7 +137,7 @@ func (c *Connect) ToResponse(code uint32) codec.Pdu {
 	if rsp.status == ConnStatusOK {
 		md5Auth := md5.Sum(bytes.Join([][]byte{
 			bs,
-			[]byte(c.sourceAddr),
+			c.authenticatorSource,
 			[]byte(c.secret),
 		}, nil))
 		rsp.authenticatorISMG = md5Auth[:]
-- 
2.43.0


From 6b7984ccdbed51223af77b214458ca665523cdaa Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 53/64] fix: the SMGP login response carries MD5(status +
 authenticatorClient + secret) as the protocol defines

---
 codec/smgp/login.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index d5aeb8d..cb62c17 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -125,8 +125,8 @@ func (l *Login) ToResponse(code uint32) codec.Pdu {
 	rsp.status = Status(code)
 	if rsp.status == Status(0) {
 		md5Auth := md5.Sum(bytes.Join([][]byte{
-			{byte(code)},
-			[]byte(l.clientID),
+			{0, 0, 0, 0},
+			l.authenticatorClient,
 			[]byte(l.secret),
 		}, nil))
 		rsp.authenticatorServer = md5Auth[:]
-- 
2.43.0


From 6bb19a2206aa6b17a1af6c3b9bd4aa7b76c6670b Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 54/64] fix: the SGIP bind response carries the 8 reserved
 octets of the protocol (29 octets)

---
 codec/sgip/bind.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index ab124fb..f25971a 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -10,7 +10,7 @@ import (
 )
 
 const BindPkgLen = 61
-const BindRspPkgLen = 21
+const BindRspPkgLen = 29
 
 // Bind 登录报文结构体【61 bytes】
 type Bind struct {
@@ -77,7 +77,7 @@ func (b *Bind) Check(ac *codec.AuthConf) Status {
 
 func (b *Bind) ToResponse(code uint32) codec.Pdu {
 	rsp := &BindRsp{}
-	rsp.PacketLength = 21
+	rsp.PacketLength = BindRspPkgLen
 	rsp.CommandId = SGIP_BIND_RESP
 	rsp.SequenceNumber = b.SequenceNumber
 	rsp.Status = Status(code)
@@ -93,9 +93,11 @@ func (b *Bind) Log() []log.Field {
 	)
 }
 
+// BindRsp 登录应答报文结构体【29 bytes】
 type BindRsp struct {
 	MessageHeader
-	Status Status
+	Status  Status // 【1 bytes 】登录结果
+	Reserve string // 【8 bytes 】保留字段
 }
 
 func (r *BindRsp) Encode() []byte {
-- 
2.43.0


From fcb9bead18b5985c1b456569ab0e7cabc142b8ff Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 55/64] fix: the CMPP 3.0 status report is 71 octets with a 32
 octet terminal id

---
 codec/cmpp/delivery.go |  2 +-
 codec/cmpp/report.go   | 28 +++++++++++++++++++++-------
 codec/cmpp/submit.go   |  6 ++++--
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 07bd2fd..9498040 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -137,7 +137,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 		return codec.ErrShortFrame
 	}
 	if d.registeredDelivery == 1 {
-		rpt := &Report{}
+		rpt := &Report{Version: d.Version}
 		err := rpt.Decode(frame[index : index+l])
 		if err != nil {
 			return err
diff --git a/codec/cmpp/report.go b/codec/cmpp/report.go
index 541fc12..fcfab04 100644
--- a/codec/cmpp/report.go
+++ b/codec/cmpp/report.go
@@ -13,8 +13,11 @@ type Report struct {
 	stat           string // 发送短信的应答结果。【7字节】
 	submitTime     string // yyMMddHHmm 【10字节】
 	doneTime       string // yyMMddHHmm 【10字节】
-	destTerminalId string // SP 发送 CMPP_SUBMIT 消息的目标终端  【21字节】
+	destTerminalId string // SP 发送 CMPP_SUBMIT 消息的目标终端  【V2 21字节；V3 32字节】
 	smscSequence   uint32 // 取自SMSC发送状态报告的消息体中的消息标识。【4字节】
+
+	// 协议版本,不是报文内容，但在调用encode、decode方法前需要设置此值
+	Version Version
 }
 
 func (rt *Report) String() string {
@@ -52,27 +55,38 @@ func NewReport(msgId uint64, destTerminalId string, submitTime string, doneTime
 	return report
 }
 
+// 状态报告的长度，及其中目标终端字段的长度，与协议版本有关
+func (rt *Report) size() (total, term int) {
+	term = 21
+	if V30.MajorMatchV(rt.Version) {
+		term = 32
+	}
+	return 39 + term, term
+}
+
 func (rt *Report) Encode() []byte {
-	frame := make([]byte, 60)
+	total, term := rt.size()
+	frame := make([]byte, total)
 	binary.BigEndian.PutUint64(frame[0:8], rt.msgId)
 	copy(frame[8:15], rt.stat)
 	copy(frame[15:25], rt.submitTime)
 	copy(frame[25:35], rt.doneTime)
-	copy(frame[35:56], rt.destTerminalId)
-	binary.BigEndian.PutUint32(frame[56:60], rt.smscSequence)
+	copy(frame[35:35+term], rt.destTerminalId)
+	binary.BigEndian.PutUint32(frame[35+term:], rt.smscSequence)
 	return frame
 }
 
 func (rt *Report) Decode(frame []byte) error {
-	if len(frame) < 60 {
+	total, term := rt.size()
+	if len(frame) < total {
 		return codec.ErrShortFrame
 	}
 	rt.msgId = binary.BigEndian.Uint64(frame[0:8])
 	rt.stat = utils.TrimStr(frame[8:15])
 	rt.submitTime = utils.TrimStr(frame[15:25])
 	rt.doneTime = utils.TrimStr(frame[25:35])
-	rt.destTerminalId = utils.TrimStr(frame[35:56])
-	rt.smscSequence = binary.BigEndian.Uint32(frame[56:60])
+	rt.destTerminalId = utils.TrimStr(frame[35 : 35+term])
+	rt.smscSequence = binary.BigEndian.Uint32(frame[35+term : total])
 	return nil
 }
 
diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 1f7ae62..8c2b70d 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -279,15 +279,16 @@ func (s *Submit) ToResponse(result uint32) codec.Pdu {
 func (s *Submit) ToDeliveryReport(msgId uint64) *Delivery {
 	d := Delivery{Version: s.Version}
 	d.TotalLength = 145
+	d.msgLength = 60
 	if V30.MajorMatchV(s.Version) {
-		d.TotalLength = 169
+		d.TotalLength = 180
+		d.msgLength = 71
 	}
 	d.CommandId = CMPP_DELIVER
 	d.SequenceId = uint32(codec.B32Seq.NextVal())
 
 	d.msgId = uint64(codec.B64Seq.NextVal())
 	d.registeredDelivery = 1
-	d.msgLength = 60
 	d.destId = s.srcId
 	d.serviceId = s.serviceId
 	d.srcTerminalId = s.destTerminalId
@@ -296,6 +297,7 @@ func (s *Submit) ToDeliveryReport(msgId uint64) *Delivery {
 	subTime := time.Now().Format("0601021504")
 	doneTime := time.Now().Add(10 * time.Second).Format("0601021504")
 	report := NewReport(msgId, s.destTerminalId, subTime, doneTime)
+	report.Version = s.Version
 	d.report = report
 	return &d
 }
-- 
2.43.0


From 1092e9ba4d769f78058f3d0b0736d7bb00a19a1e Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 01:55:26 +0000
Subject: [PATCH 56/64] fix: the event registry keeps its own list of the
 handlers it is given

---
 event_manager/event_manage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 664784a..73d46f7 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -38,7 +38,8 @@ func RegisterShutdownHooker(key string, hookers ...Event) bool {
 // 当执行优雅停机时，events 会先被执行，然后发送信号给通道
 func RegisterShutdownHookerAddChan(key string, events ...Event) <-chan bool {
 	cancel := make(chan bool, 1)
-	events = append(events, func(args ...any) {
+	// 不可写入调用者的切片
+	events = append(events[:len(events):len(events)], func(args ...any) {
 		select {
 		case cancel <- true:
 		default: // 已有未消费的取消信号
@@ -65,6 +66,8 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if !strings.HasPrefix(key, m.prefix) {
 		key = m.prefix + key
 	}
+	// 调用者之后对切片的修改不影响已注册的事件
+	events = append([]Event(nil), events...)
 	// 判断key下是否已有事件
 	if _, exists := sMap.LoadOrStore(key, func(args ...any) {
 		for _, fn := range events {
-- 
2.43.0


From ca0887e5f3dbfea3ea69c24dc42763041f10d7a4 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 01:55:29 +0000
Subject: [PATCH 57/64] fix: a send that breaks off returns the results of the
 segments that were sent

---
 msc_client/session/on_traffic_cmpp.go | 3 ++-
 msc_client/session/on_traffic_sgip.go | 3 ++-
 msc_client/session/on_traffic_smgp.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 3711498..5f44114 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -26,7 +26,8 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 之前的分片已发出，仍需返回其结果
+			return results
 		}
 		log.Debug(send, mtt.Log()...)
 		results = append(results, &r)
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 7fce9af..7e60b4a 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -25,7 +25,8 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 之前的分片已发出，仍需返回其结果
+			return results
 		}
 		log.Debug(send, mtt.Log()...)
 		results = append(results, &r)
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 692c5e2..bb01f62 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -26,7 +26,8 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 之前的分片已发出，仍需返回其结果
+			return results
 		}
 		log.Debug(send, mtt.Log()...)
 		results = append(results, &r)
-- 
2.43.0


From 1f04bfbba49e2379e0d99a048f59a2a2eaabf9fe Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 01:55:31 +0000
Subject: [PATCH 58/64] fix: the client's window is the configured one, 16 if
 none is, whatever the number of connections

---
 msc_client/session_factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 6360b49..868d9f2 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -127,7 +127,7 @@ func createSessionFactory(isp string) *SessionFactory {
 	}
 
 	winSize := ConfigYml.GetInt(isp + ".mt-window-size")
-	if maxConns > 0 {
+	if winSize > 0 {
 		factory.window = make(chan struct{}, winSize)
 	} else {
 		factory.window = make(chan struct{}, 16)
-- 
2.43.0


From 57e15aeb3b598a3b2d1655ac3b933615924da8c1 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 01:55:33 +0000
Subject: [PATCH 59/64] fix: a carrier whose number segment cannot be read does
 not block the others

---
 msc_client/session_factory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 868d9f2..0b357b5 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -105,7 +105,9 @@ func createSessionFactory(isp string) *SessionFactory {
 	var err error
 	factory.regex, err = regexp.Compile(segment)
 	if err != nil {
+		// 号段无法识别的运营商不可用，不能影响其他运营商
 		log.Error(err.Error())
+		return nil
 	}
 
 	maxConns := ConfigYml.GetInt(isp + ".max-conns")
-- 
2.43.0


From 33a4c0da6fa90b3055e05fd43d5e98215b4c13d8 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 01:55:36 +0000
Subject: [PATCH 60/64] fix: an account in the database that cannot be read
 does not hide the others

---
 auth/mongo_store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index a47b2c2..7dd1026 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -35,7 +35,9 @@ func (m *MongoStore) Load() {
 		c := &Client{}
 		err := cursor.Decode(c)
 		if err != nil {
-			return
+			// 无法解析的账号不能影响其他账号
+			log.Error(err.Error())
+			continue
 		}
 		m.Cache[c.ISP+"_"+c.ClientId] = c
 	}
-- 
2.43.0


From 5c5fdeeec59ebf3d3e4c40e6d70f09f09232ea4b Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 61/64] fix: accounts in the database are found whatever the
 letter case of their carrier

---
 auth/mongo_store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index 7dd1026..cd1de85 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -39,6 +39,8 @@ func (m *MongoStore) Load() {
 			log.Error(err.Error())
 			continue
 		}
+		// 查询时运营商不区分大小写
+		c.ISP = strings.ToLower(c.ISP)
 		m.Cache[c.ISP+"_"+c.ClientId] = c
 	}
 }
-- 
2.43.0


From be06bfc851911e1c5b793bc03a493d33bbe2509a Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 02:51:53 +0000
Subject: [PATCH 62/64] fix: RandNum returns the lower bound when the range is
 empty

---
 utils/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index bc3548f..381f29a 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -225,7 +225,11 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 	return rt
 }
 
+// RandNum 返回[min, max)内的随机数，区间为空时返回min
 func RandNum(min, max int) int {
+	if max <= min {
+		return min
+	}
 	return rand.Intn(max-min) + min
 }
 
-- 
2.43.0


From 5f1ef3d090171c24583ba5d24643a52a41ea3168 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 02:51:56 +0000
Subject: [PATCH 63/64] fix: an account without a window size gets the default
 one

---
 msc_server/server/session.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 285d463..7a534fa 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -87,8 +87,13 @@ func (s *session) completeLogin(ac *codec.AuthConf) bool {
 	s.clientId = ac.ClientId
 	s.lastUseTime = time.Now()
 	s.releasePool()
-	s.window = make(chan struct{}, ac.MtWindowSize)
-	s.pool = createSessionSidePool(ac.MtWindowSize * 2)
+	size := ac.MtWindowSize
+	if size <= 0 {
+		// 账号未设置窗口大小时的默认值
+		size = 16
+	}
+	s.window = make(chan struct{}, size)
+	s.pool = createSessionSidePool(size * 2)
 	s.setupLimiter(ac)
 	return true
 }
-- 
2.43.0


From 368767ca419b26e567bd6a8b27808579ae8d8199 Mon Sep 17 00:00:00 2001
From: verif <dev@example.com>
Date: Thu, 19 Nov 2026 02:51:58 +0000
Subject: [PATCH 64/64] fix: a TLV list takes objects of every type

---
 utils/tlv.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/utils/tlv.go b/utils/tlv.go
index 1ab1f54..b972fde 100644
--- a/utils/tlv.go
+++ b/utils/tlv.go
@@ -173,8 +173,8 @@ func (tl *TlvList) Length() int32 {
 // If the type could not be found, Get returns ErrTypeNotFound.
 func (tl *TlvList) Get(typ uint16) (TLV, error) {
 	for e := tl.objects.Front(); e != nil; e = e.Next() {
-		if e.Value.(*object).Type() == typ {
-			return e.Value.(*object), nil
+		if e.Value.(TLV).Type() == typ {
+			return e.Value.(TLV), nil
 		}
 	}
 	return nil, ErrTypeNotFound
@@ -185,7 +185,7 @@ func (tl *TlvList) Get(typ uint16) (TLV, error) {
 func (tl *TlvList) GetAll(typ uint16) []TLV {
 	ts := make([]TLV, 0)
 	for e := tl.objects.Front(); e != nil; e = e.Next() {
-		if e.Value.(*object).Type() == typ {
+		if e.Value.(TLV).Type() == typ {
 			ts = append(ts, e.Value.(TLV))
 		}
 	}
@@ -199,7 +199,7 @@ func (tl *TlvList) Remove(typ uint16) int {
 	for {
 		var removed int
 		for e := tl.objects.Front(); e != nil; e = e.Next() {
-			if e.Value.(*object).Type() == typ {
+			if e.Value.(TLV).Type() == typ {
 				tl.objects.Remove(e)
 				removed++
 				break
@@ -220,7 +220,7 @@ func (tl *TlvList) RemoveObject(obj TLV) int {
 	for {
 		var removed int
 		for e := tl.objects.Front(); e != nil; e = e.Next() {
-			if Equal(e.Value.(*object), obj) {
+			if Equal(e.Value.(TLV), obj) {
 				tl.objects.Remove(e)
 				removed++
 				break
@@ -265,8 +265,7 @@ func (tl *TlvList) String() string {
 	sb.Grow(int(8 * tl.Length()))
 	sb.WriteString("[")
 	for e := tl.objects.Front(); e != nil; e = e.Next() {
-		o := e.Value.(*object)
-		sb.WriteString(o.String())
+		fmt.Fprint(&sb, e.Value)
 		sb.WriteString(",")
 	}
 	sb.WriteString("]")
-- 
2.43.0

