From 9a2fd8b19459cfc7f00e2dd327f0293f261bf904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 01/12] fix: order the V1 frame header as sequence, system id,
 component id

---
 stream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream.go b/stream.go
index e5379b3..7d71fa4 100644
--- a/stream.go
+++ b/stream.go
@@ -305,9 +305,9 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		frameBytes = make([]byte, len(messageBytes)+6)
 		frameBytes[0] = V1StartByte
 		frameBytes[1] = uint8(len(messageBytes))
-		frameBytes[2] = senderSystemID
-		frameBytes[3] = senderComponentID
-		frameBytes[4] = messageSequence
+		frameBytes[2] = messageSequence
+		frameBytes[3] = senderSystemID
+		frameBytes[4] = senderComponentID
 
 		idBytes := make([]byte, 4)
 		binary.LittleEndian.PutUint32(idBytes, message.GetID())
-- 
2.43.0


From b1ddda5775f77b510ddaf17bf81ce377eb04ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 02/12] fix: keep a single byte when truncating an all-zero V2
 payload

---
 util/util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/util.go b/util/util.go
index 4ca91fd..92d1bdd 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,13 +3,14 @@ package util
 func TruncateV2(input []byte) []byte {
 	var i int
 	// Loop through the array in reverse until the first non-zero byte is found
-	for i = len(input); i > 0; i-- {
+	// The first byte is always kept
+	for i = len(input); i > 1; i-- {
 		if input[i-1] != 0 {
-			return input[:i]
+			break
 		}
 	}
 
-	return input
+	return input[:i]
 }
 
 // CStrLen returns the length of the null-terminated C string contained in the input buffer
-- 
2.43.0


From 5b0419963506a0ca22c0eed4600aaa9dfd23b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 03/12] fix: look for the signed flag in the incompatibility
 flags

---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index a27cc43..27d1995 100644
--- a/frame.go
+++ b/frame.go
@@ -195,7 +195,7 @@ func (frame FrameV2) GetChecksumInput() []byte {
 
 // GetSignature returns the V2 Signature of the frame, if it exists
 func (frame FrameV2) GetSignature() []byte {
-	if frame.GetCompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
+	if frame.GetIncompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
 		return nil
 	}
 	start := frame.GetMessageLength() + 12
-- 
2.43.0


From b66d9e42c572ac60a42ba8b1e3c34d21fee08d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 04/12] fix: report a too short input when copying a frame from
 bytes

---
 frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frame.go b/frame.go
index 27d1995..6106221 100644
--- a/frame.go
+++ b/frame.go
@@ -272,6 +272,11 @@ func FrameFromBytes(raw []byte, frameLength uint16, makeCopy bool) (frame Frame,
 		return
 	}
 
+	if makeCopy && int(frameLength) > len(raw) {
+		err = ErrFrameTooShort
+		return
+	}
+
 	startByte := raw[0]
 
 	if startByte == V1StartByte {
-- 
2.43.0


From 3185d481a333f49334760db1703741d90ddb53e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 05/12] fix: treat every message as unknown when no dialect is
 loaded

---
 dialect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialect.go b/dialect.go
index 1beea4e..f8a913d 100644
--- a/dialect.go
+++ b/dialect.go
@@ -37,6 +37,8 @@ type Dialects []Dialect
 
 // GetMessage decodes the message in the Frame
 func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		message, err = dialect.GetMessage(frame)
 
@@ -59,6 +61,8 @@ func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
 func (d Dialects) GetFrame(version int, senderSystemID, senderComponentID, messageSequence uint8, message Message) (frame Frame, err error) {
 	var meta MessageMeta
 
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(message.GetID())
 
@@ -85,7 +89,7 @@ func (d Dialects) Validate(frame Frame) error {
 	checksum.Reset()
 
 	var meta MessageMeta
-	var err error
+	err := ErrUnknownMessage
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(frame.GetMessageID())
 
-- 
2.43.0


From dd98b96a14c02adac065f1ff47fc4503cb50d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 06/12] fix: refuse to build frames whose length or message id
 does not fit the header

---
 stream.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stream.go b/stream.go
index 7d71fa4..1312acb 100644
--- a/stream.go
+++ b/stream.go
@@ -298,6 +298,18 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		return
 	}
 
+	// The length field of the header is a single byte
+	if len(messageBytes) > 255 {
+		err = ErrMessageTooLong
+		return
+	}
+
+	// The message ID field of V1 headers is a single byte
+	if version == 1 && message.GetID() > 255 {
+		err = ErrEncodeV2MessageV1Frame
+		return
+	}
+
 	x25 := X25CRC{}
 	x25.Reset()
 
-- 
2.43.0


From b114056885acc0c0e4ffb4fc04f835e9dc382b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 07/12] fix: accept and decode V2_EXTENSION messages of every
 payload length

---
 common/dialect.go      | 2 +-
 common/v2_extension.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/dialect.go b/common/dialect.go
index cf90dd8..7725f73 100644
--- a/common/dialect.go
+++ b/common/dialect.go
@@ -190,7 +190,7 @@ var commonMessages = map[uint32]mavlink2.MessageMeta{
 	245:   mavlink2.MessageMeta{CRCExtra: 130, MinimumLength: 2, MaximumLength: 2},
 	246:   mavlink2.MessageMeta{CRCExtra: 184, MinimumLength: 38, MaximumLength: 38},
 	247:   mavlink2.MessageMeta{CRCExtra: 81, MinimumLength: 19, MaximumLength: 19},
-	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 254, MaximumLength: 254},
+	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 5, MaximumLength: 254},
 	249:   mavlink2.MessageMeta{CRCExtra: 204, MinimumLength: 36, MaximumLength: 36},
 	250:   mavlink2.MessageMeta{CRCExtra: 49, MinimumLength: 30, MaximumLength: 30},
 	251:   mavlink2.MessageMeta{CRCExtra: 170, MinimumLength: 18, MaximumLength: 18},
diff --git a/common/v2_extension.go b/common/v2_extension.go
index 58bc6a5..00033df 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -162,8 +162,12 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 
 	copy(ioBytes, frame.GetMessageBytes())
 
+	// V2Extension has no extension fields, and its payload ends before HasExtensionFieldValues
+	ioBytes[len(ioBytes)-2] = 0
+
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength()-5)))
+	payloadLength := math.Max(0, float64(frame.GetMessageLength())-5)
+	ioBytes[len(ioBytes)-1] = uint8(math.Min(payloadLength, float64(len(m.Payload))))
 
 	buffer := bytes.NewBuffer(ioBytes)
 
-- 
2.43.0


From 021f6d7af84995e6e429e91de4a4c51705a976fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 08/12] fix: clear the rest of a text field when storing a
 shorter string

---
 ardupilotmega/device_op_read.go     | 1 +
 ardupilotmega/device_op_write.go    | 1 +
 common/adsb_vehicle.go              | 1 +
 common/ais_vessel.go                | 2 ++
 common/auth_key.go                  | 1 +
 common/camera_image_captured.go     | 1 +
 common/camera_information.go        | 1 +
 common/change_operator_control.go   | 1 +
 common/component_information.go     | 1 +
 common/debug_float_array.go         | 1 +
 common/debug_vect.go                | 1 +
 common/named_value_float.go         | 1 +
 common/named_value_int.go           | 1 +
 common/open_drone_id_operator_id.go | 1 +
 common/open_drone_id_self_id.go     | 1 +
 common/param_ext_ack.go             | 2 ++
 common/param_ext_request_read.go    | 1 +
 common/param_ext_set.go             | 2 ++
 common/param_ext_value.go           | 2 ++
 common/param_map_rc.go              | 1 +
 common/param_request_read.go        | 1 +
 common/param_set.go                 | 1 +
 common/param_value.go               | 1 +
 common/play_tune.go                 | 2 ++
 common/play_tune_v2.go              | 1 +
 common/smart_battery_info.go        | 1 +
 common/statustext.go                | 1 +
 common/statustext_long.go           | 1 +
 common/uavcan_node_info.go          | 1 +
 common/video_stream_information.go  | 2 ++
 common/wifi_config_ap.go            | 2 ++
 paparazzi/script_item.go            | 1 +
 uAvionix/uavionix_adsb_out_cfg.go   | 1 +
 33 files changed, 40 insertions(+)

diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index fa99ade..d7af7e1 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -100,6 +100,7 @@ func (m *DeviceOpRead) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpRead) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index cbff8ce..00e0bd0 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -104,6 +104,7 @@ func (m *DeviceOpWrite) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpWrite) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index cd7493c..25d7bf7 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -116,6 +116,7 @@ func (m *AdsbVehicle) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AdsbVehicle) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 2f81840..497e532 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -132,6 +132,7 @@ func (m *AisVessel) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AisVessel) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(7)))
+	m.Callsign = [7]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 7 {
@@ -151,6 +152,7 @@ func (m *AisVessel) GetCallsign() string {
 // SetName encodes the input string to the Name array
 func (m *AisVessel) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.Name = [20]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/auth_key.go b/common/auth_key.go
index 40953ae..f2af34e 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -68,6 +68,7 @@ func (m *AuthKey) String() string {
 // SetKey encodes the input string to the Key array
 func (m *AuthKey) SetKey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Key = [32]byte{}
 	copy(m.Key[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index ab33c9e..bfc2cbc 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -108,6 +108,7 @@ func (m *CameraImageCaptured) String() string {
 // SetFileURL encodes the input string to the FileURL array
 func (m *CameraImageCaptured) SetFileURL(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(205)))
+	m.FileURL = [205]byte{}
 	copy(m.FileURL[:], []byte(input)[:clen])
 
 	if len(input) > 205 {
diff --git a/common/camera_information.go b/common/camera_information.go
index 14340b6..efbd79d 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -116,6 +116,7 @@ func (m *CameraInformation) String() string {
 // SetCamDefinitionURI encodes the input string to the CamDefinitionURI array
 func (m *CameraInformation) SetCamDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.CamDefinitionURI = [140]byte{}
 	copy(m.CamDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index d999970..ddc101e 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -80,6 +80,7 @@ func (m *ChangeOperatorControl) String() string {
 // SetPasskey encodes the input string to the Passkey array
 func (m *ChangeOperatorControl) SetPasskey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(25)))
+	m.Passkey = [25]byte{}
 	copy(m.Passkey[:], []byte(input)[:clen])
 
 	if len(input) > 25 {
diff --git a/common/component_information.go b/common/component_information.go
index caca03b..59bd067 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -96,6 +96,7 @@ func (m *ComponentInformation) String() string {
 // SetComponentDefinitionURI encodes the input string to the ComponentDefinitionURI array
 func (m *ComponentInformation) SetComponentDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.ComponentDefinitionURI = [140]byte{}
 	copy(m.ComponentDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index ce35d70..68cc81f 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -97,6 +97,7 @@ func (m *DebugFloatArray) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugFloatArray) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/debug_vect.go b/common/debug_vect.go
index 52a2b4e..dc4dc20 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -84,6 +84,7 @@ func (m *DebugVect) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugVect) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_float.go b/common/named_value_float.go
index 492728a..5eb9d62 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -76,6 +76,7 @@ func (m *NamedValueFloat) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueFloat) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_int.go b/common/named_value_int.go
index a347384..4de1246 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -76,6 +76,7 @@ func (m *NamedValueInt) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueInt) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 5d0a1ee..41a0e06 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDOperatorID) String() string {
 // SetOperatorID encodes the input string to the OperatorID array
 func (m *OpenDroneIDOperatorID) SetOperatorID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.OperatorID = [20]byte{}
 	copy(m.OperatorID[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 8f0eb12..2146aea 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDSelfID) String() string {
 // SetDescription encodes the input string to the Description array
 func (m *OpenDroneIDSelfID) SetDescription(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(23)))
+	m.Description = [23]byte{}
 	copy(m.Description[:], []byte(input)[:clen])
 
 	if len(input) > 23 {
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 6aafc61..1f849a0 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -80,6 +80,7 @@ func (m *ParamExtAck) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtAck) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -99,6 +100,7 @@ func (m *ParamExtAck) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtAck) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index 6f95d4e..903ca11 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamExtRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 12c1530..74fce6a 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -84,6 +84,7 @@ func (m *ParamExtSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtSet) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtSet) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 743dc97..365ea67 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -84,6 +84,7 @@ func (m *ParamExtValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtValue) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtValue) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 8aec9b0..1d699be 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -100,6 +100,7 @@ func (m *ParamMapRC) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamMapRC) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 2a6456d..2a4abc9 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_set.go b/common/param_set.go
index 8f5d597..5a29857 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -84,6 +84,7 @@ func (m *ParamSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_value.go b/common/param_value.go
index 9cb1a20..8664315 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -84,6 +84,7 @@ func (m *ParamValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/play_tune.go b/common/play_tune.go
index 9aeff5e..b365da0 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -97,6 +97,7 @@ func (m *PlayTune) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTune) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(30)))
+	m.Tune = [30]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 30 {
@@ -116,6 +117,7 @@ func (m *PlayTune) GetTune() string {
 // SetTune2 encodes the input string to the Tune2 array
 func (m *PlayTune) SetTune2(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(200)))
+	m.Tune2 = [200]byte{}
 	copy(m.Tune2[:], []byte(input)[:clen])
 
 	if len(input) > 200 {
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index 4399c8c..cd1f10c 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -80,6 +80,7 @@ func (m *PlayTuneV2) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTuneV2) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(248)))
+	m.Tune = [248]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 248 {
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 82355e8..8d75d5c 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -104,6 +104,7 @@ func (m *SmartBatteryInfo) String() string {
 // SetDeviceName encodes the input string to the DeviceName array
 func (m *SmartBatteryInfo) SetDeviceName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.DeviceName = [50]byte{}
 	copy(m.DeviceName[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext.go b/common/statustext.go
index addfc4e..aae7e13 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -72,6 +72,7 @@ func (m *Statustext) String() string {
 // SetText encodes the input string to the Text array
 func (m *Statustext) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Text = [50]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext_long.go b/common/statustext_long.go
index dff0134..ea70a5e 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -72,6 +72,7 @@ func (m *StatustextLong) String() string {
 // SetText encodes the input string to the Text array
 func (m *StatustextLong) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(254)))
+	m.Text = [254]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 254 {
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 00fb5c7..948974c 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -100,6 +100,7 @@ func (m *UavcanNodeInfo) String() string {
 // SetName encodes the input string to the Name array
 func (m *UavcanNodeInfo) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(80)))
+	m.Name = [80]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 80 {
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index e8cd673..1fbb155 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -112,6 +112,7 @@ func (m *VIDeoStreamInformation) String() string {
 // SetName encodes the input string to the Name array
 func (m *VIDeoStreamInformation) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Name = [32]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -131,6 +132,7 @@ func (m *VIDeoStreamInformation) GetName() string {
 // SetURI encodes the input string to the URI array
 func (m *VIDeoStreamInformation) SetURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(160)))
+	m.URI = [160]byte{}
 	copy(m.URI[:], []byte(input)[:clen])
 
 	if len(input) > 160 {
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index 4b5febf..c964746 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -72,6 +72,7 @@ func (m *WifiConfigAp) String() string {
 // SetSsID encodes the input string to the SsID array
 func (m *WifiConfigAp) SetSsID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.SsID = [32]byte{}
 	copy(m.SsID[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -91,6 +92,7 @@ func (m *WifiConfigAp) GetSsID() string {
 // SetPassword encodes the input string to the Password array
 func (m *WifiConfigAp) SetPassword(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(64)))
+	m.Password = [64]byte{}
 	copy(m.Password[:], []byte(input)[:clen])
 
 	if len(input) > 64 {
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index cdb8974..8a384d1 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -80,6 +80,7 @@ func (m *ScriptItem) String() string {
 // SetName encodes the input string to the Name array
 func (m *ScriptItem) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Name = [50]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 64dd936..4f6ecaf 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -96,6 +96,7 @@ func (m *UavionixAdsbOutCfg) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *UavionixAdsbOutCfg) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
-- 
2.43.0


From 7ad1105d48101e733927a83f81aaad48d5786e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 09/12] fix: name the uAvionix parser table as it is used

---
 uAvionix/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uAvionix/dialect.go b/uAvionix/dialect.go
index d9de5c4..2600ab9 100644
--- a/uAvionix/dialect.go
+++ b/uAvionix/dialect.go
@@ -62,7 +62,7 @@ var uavionixMessages = map[uint32]mavlink2.MessageMeta{
 	10003: mavlink2.MessageMeta{CRCExtra: 4, MinimumLength: 1, MaximumLength: 1},
 }
 
-var uAvionixParsers = map[uint32]mavlink2.FrameParser{
+var uavionixParsers = map[uint32]mavlink2.FrameParser{
 	10001: mavlink2.FrameParser(func(frame mavlink2.Frame) (message mavlink2.Message, err error) {
 		message = &UavionixAdsbOutCfg{}
 
-- 
2.43.0


From f8f1ba66448aff87988e92e55278caad1eab764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 10/12] fix: do not send on the closed frame channel when
 closed while reading

---
 stream.go | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/stream.go b/stream.go
index 1312acb..1a2db32 100644
--- a/stream.go
+++ b/stream.go
@@ -130,19 +130,46 @@ func (s *FrameStream) Closed() <-chan struct{} {
 
 func (s *FrameStream) close(err error) {
 	s.closeOnce.Do(func() {
-		s.Lock()
-		defer s.Unlock()
-
 		s.closeErr = err
 
 		s.rwc.Close()
-		close(s.outputFrames)
 		close(s.closed)
+
+		// Frames are handed over with the read lock held, which is released once s.closed is closed
+		s.Lock()
+		defer s.Unlock()
+
+		close(s.outputFrames)
 	})
 }
 
 func (s *FrameStream) GetCloseErr() error {
-	return s.closeErr
+	select {
+	case <-s.closed:
+		return s.closeErr
+	default:
+		return nil
+	}
+}
+
+// deliver hands over the frame unless the stream is closed first
+func (s *FrameStream) deliver(frame Frame) bool {
+	s.RLock()
+	defer s.RUnlock()
+
+	// s.outputFrames is only closed after s.closed, and never while the read lock is held
+	select {
+	case <-s.closed:
+		return false
+	default:
+	}
+
+	select {
+	case s.outputFrames <- frame:
+		return true
+	case <-s.closed:
+		return false
+	}
 }
 
 func (s *FrameStream) WriteContext(ctx context.Context) {
@@ -185,7 +212,9 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 			if s.logger != nil {
 				s.logger.LogRead(frame.Bytes())
 			}
-			s.outputFrames <- frame
+			if !s.deliver(frame) {
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 8606b7a61a17bf744025410d7b3a3aa6541f02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 11/12] fix: bound the memory used to remember logged invalid
 frames

---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index 1a2db32..e411d97 100644
--- a/stream.go
+++ b/stream.go
@@ -86,6 +86,9 @@ type FrameLogger interface {
 // mavlink v1 has max length 263, v2 has max length 279
 const maxFrameLength = 279
 
+// maxInvalidLogged limits how many kinds of invalid frames are logged and remembered
+const maxInvalidLogged = 1024
+
 func NewFrameStream(rwc io.ReadWriteCloser, inputFrames chan Frame, dialects Dialects, returnInvalidFrames bool) *FrameStream {
 	return NewFrameStreamWithLogger(rwc, inputFrames, dialects, returnInvalidFrames, nil)
 }
@@ -278,7 +281,7 @@ func (s *FrameStream) readFrame(reader *bufio.Reader) (frame Frame, err error) {
 					frame.GetMessageID(),
 					frame.GetSenderSystemID(),
 					frame.GetSenderComponentID()}
-				if _, ok := s.invalidLogged[metaData]; !ok {
+				if _, ok := s.invalidLogged[metaData]; !ok && len(s.invalidLogged) < maxInvalidLogged {
 					fmt.Printf("Got invalid frame, version %d, message id %d, system id %d, component id %d\n",
 						metaData.version, metaData.messageID,
 						metaData.senderSystemID, metaData.senderComponentID)
-- 
2.43.0


From 317bdb19de25d222f98b16d340ebe54cd476472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:55 +0000
Subject: [PATCH 12/12] fix: payload bytes beyond a message's fields no longer
 spill into its extension flag

Decoding copied up to one payload byte too many: a payload longer than the
message set HasExtensionFieldValues, so the message reported version 2
although its type has no extension fields.
---
 ardupilotmega/adap_tuning.go                        | 2 +-
 ardupilotmega/ahrs.go                               | 2 +-
 ardupilotmega/ahrs2.go                              | 2 +-
 ardupilotmega/ahrs3.go                              | 2 +-
 ardupilotmega/airspeed_autocal.go                   | 2 +-
 ardupilotmega/aoa_ssa.go                            | 2 +-
 ardupilotmega/ap_adc.go                             | 2 +-
 ardupilotmega/autopilot_version_request.go          | 2 +-
 ardupilotmega/battery2.go                           | 2 +-
 ardupilotmega/camera_feedback.go                    | 2 +-
 ardupilotmega/camera_status.go                      | 2 +-
 ardupilotmega/compassmot_status.go                  | 2 +-
 ardupilotmega/data16.go                             | 2 +-
 ardupilotmega/data32.go                             | 2 +-
 ardupilotmega/data64.go                             | 2 +-
 ardupilotmega/data96.go                             | 2 +-
 ardupilotmega/deepstall.go                          | 2 +-
 ardupilotmega/device_op_read.go                     | 2 +-
 ardupilotmega/device_op_read_reply.go               | 2 +-
 ardupilotmega/device_op_write.go                    | 2 +-
 ardupilotmega/device_op_write_reply.go              | 2 +-
 ardupilotmega/digicam_configure.go                  | 2 +-
 ardupilotmega/digicam_control.go                    | 2 +-
 ardupilotmega/efi_status.go                         | 2 +-
 ardupilotmega/ekf_status_report.go                  | 2 +-
 ardupilotmega/esc_telemetry_1_to_4.go               | 2 +-
 ardupilotmega/esc_telemetry_5_to_8.go               | 2 +-
 ardupilotmega/esc_telemetry_9_to_12.go              | 2 +-
 ardupilotmega/fence_fetch_point.go                  | 2 +-
 ardupilotmega/fence_point.go                        | 2 +-
 ardupilotmega/fence_status.go                       | 2 +-
 ardupilotmega/gimbal_control.go                     | 2 +-
 ardupilotmega/gimbal_report.go                      | 2 +-
 ardupilotmega/gimbal_torque_cmd_report.go           | 2 +-
 ardupilotmega/gopro_get_request.go                  | 2 +-
 ardupilotmega/gopro_get_response.go                 | 2 +-
 ardupilotmega/gopro_heartbeat.go                    | 2 +-
 ardupilotmega/gopro_set_request.go                  | 2 +-
 ardupilotmega/gopro_set_response.go                 | 2 +-
 ardupilotmega/hwstatus.go                           | 2 +-
 ardupilotmega/led_control.go                        | 2 +-
 ardupilotmega/limits_status.go                      | 2 +-
 ardupilotmega/mag_cal_progress.go                   | 2 +-
 ardupilotmega/mag_cal_report.go                     | 2 +-
 ardupilotmega/meminfo.go                            | 2 +-
 ardupilotmega/mount_configure.go                    | 2 +-
 ardupilotmega/mount_control.go                      | 2 +-
 ardupilotmega/mount_status.go                       | 2 +-
 ardupilotmega/pid_tuning.go                         | 2 +-
 ardupilotmega/radio.go                              | 2 +-
 ardupilotmega/rally_fetch_point.go                  | 2 +-
 ardupilotmega/rally_point.go                        | 2 +-
 ardupilotmega/rangefinder.go                        | 2 +-
 ardupilotmega/remote_log_block_status.go            | 2 +-
 ardupilotmega/remote_log_data_block.go              | 2 +-
 ardupilotmega/rpm.go                                | 2 +-
 ardupilotmega/sensor_offsets.go                     | 2 +-
 ardupilotmega/set_mag_offsets.go                    | 2 +-
 ardupilotmega/simstate.go                           | 2 +-
 ardupilotmega/vision_position_delta.go              | 2 +-
 ardupilotmega/wind.go                               | 2 +-
 asluav/asl_obctrl.go                                | 2 +-
 asluav/aslctrl_data.go                              | 2 +-
 asluav/aslctrl_debug.go                             | 2 +-
 asluav/asluav_status.go                             | 2 +-
 asluav/command_int_stamped.go                       | 2 +-
 asluav/command_long_stamped.go                      | 2 +-
 asluav/ekf_ext.go                                   | 2 +-
 asluav/fw_soaring_data.go                           | 2 +-
 asluav/gsm_link_status.go                           | 2 +-
 asluav/satcom_link_status.go                        | 2 +-
 asluav/sens_atmos.go                                | 2 +-
 asluav/sens_batmon.go                               | 2 +-
 asluav/sens_mppt.go                                 | 2 +-
 asluav/sens_power.go                                | 2 +-
 asluav/sens_power_board.go                          | 2 +-
 asluav/sensorpod_status.go                          | 2 +-
 autoquad/aq_esc_telemetry.go                        | 2 +-
 autoquad/aq_telemetry_f.go                          | 2 +-
 common/actuator_control_target.go                   | 2 +-
 common/actuator_output_status.go                    | 2 +-
 common/adsb_vehicle.go                              | 2 +-
 common/ais_vessel.go                                | 2 +-
 common/altitude.go                                  | 2 +-
 common/att_pos_mocap.go                             | 2 +-
 common/attitude.go                                  | 2 +-
 common/attitude_quaternion.go                       | 2 +-
 common/attitude_quaternion_cov.go                   | 2 +-
 common/attitude_target.go                           | 2 +-
 common/auth_key.go                                  | 2 +-
 common/autopilot_version.go                         | 2 +-
 common/battery_status.go                            | 2 +-
 common/button_change.go                             | 2 +-
 common/camera_capture_status.go                     | 2 +-
 common/camera_image_captured.go                     | 2 +-
 common/camera_information.go                        | 2 +-
 common/camera_settings.go                           | 2 +-
 common/camera_trigger.go                            | 2 +-
 common/cellular_status.go                           | 2 +-
 common/change_operator_control.go                   | 2 +-
 common/change_operator_control_ack.go               | 2 +-
 common/collision.go                                 | 2 +-
 common/command_ack.go                               | 2 +-
 common/command_int.go                               | 2 +-
 common/command_long.go                              | 2 +-
 common/component_information.go                     | 2 +-
 common/control_system_state.go                      | 2 +-
 common/data_stream.go                               | 2 +-
 common/data_transmission_handshake.go               | 2 +-
 common/debug.go                                     | 2 +-
 common/debug_float_array.go                         | 2 +-
 common/debug_vect.go                                | 2 +-
 common/distance_sensor.go                           | 2 +-
 common/encapsulated_data.go                         | 2 +-
 common/estimator_status.go                          | 2 +-
 common/extended_sys_state.go                        | 2 +-
 common/fence_status.go                              | 2 +-
 common/file_transfer_protocol.go                    | 2 +-
 common/flight_information.go                        | 2 +-
 common/follow_target.go                             | 2 +-
 common/global_position_int.go                       | 2 +-
 common/global_position_int_cov.go                   | 2 +-
 common/global_vision_position_estimate.go           | 2 +-
 common/gps2_raw.go                                  | 2 +-
 common/gps2_rtk.go                                  | 2 +-
 common/gps_global_origin.go                         | 2 +-
 common/gps_inject_data.go                           | 2 +-
 common/gps_input.go                                 | 2 +-
 common/gps_raw_int.go                               | 2 +-
 common/gps_rtcm_data.go                             | 2 +-
 common/gps_rtk.go                                   | 2 +-
 common/gps_status.go                                | 2 +-
 common/heartbeat.go                                 | 2 +-
 common/high_latency.go                              | 2 +-
 common/high_latency2.go                             | 2 +-
 common/highres_imu.go                               | 2 +-
 common/hil_actuator_controls.go                     | 2 +-
 common/hil_controls.go                              | 2 +-
 common/hil_gps.go                                   | 2 +-
 common/hil_optical_flow.go                          | 2 +-
 common/hil_rc_inputs_raw.go                         | 2 +-
 common/hil_sensor.go                                | 2 +-
 common/hil_state.go                                 | 2 +-
 common/hil_state_quaternion.go                      | 2 +-
 common/home_position.go                             | 2 +-
 common/isbd_link_status.go                          | 2 +-
 common/landing_target.go                            | 2 +-
 common/link_node_status.go                          | 2 +-
 common/local_position_ned.go                        | 2 +-
 common/local_position_ned_cov.go                    | 2 +-
 common/local_position_ned_system_global_offset.go   | 2 +-
 common/log_data.go                                  | 2 +-
 common/log_entry.go                                 | 2 +-
 common/log_erase.go                                 | 2 +-
 common/log_request_data.go                          | 2 +-
 common/log_request_end.go                           | 2 +-
 common/log_request_list.go                          | 2 +-
 common/logging_ack.go                               | 2 +-
 common/logging_data.go                              | 2 +-
 common/logging_data_acked.go                        | 2 +-
 common/manual_control.go                            | 2 +-
 common/manual_setpoint.go                           | 2 +-
 common/memory_vect.go                               | 2 +-
 common/message_interval.go                          | 2 +-
 common/mission_ack.go                               | 2 +-
 common/mission_changed.go                           | 2 +-
 common/mission_clear_all.go                         | 2 +-
 common/mission_count.go                             | 2 +-
 common/mission_current.go                           | 2 +-
 common/mission_item.go                              | 2 +-
 common/mission_item_int.go                          | 2 +-
 common/mission_item_reached.go                      | 2 +-
 common/mission_request.go                           | 2 +-
 common/mission_request_int.go                       | 2 +-
 common/mission_request_list.go                      | 2 +-
 common/mission_request_partial_list.go              | 2 +-
 common/mission_set_current.go                       | 2 +-
 common/mission_write_partial_list.go                | 2 +-
 common/mount_orientation.go                         | 2 +-
 common/named_value_float.go                         | 2 +-
 common/named_value_int.go                           | 2 +-
 common/nav_controller_output.go                     | 2 +-
 common/obstacle_distance.go                         | 2 +-
 common/odometry.go                                  | 2 +-
 common/onboard_computer_status.go                   | 2 +-
 common/open_drone_id_authentication.go              | 2 +-
 common/open_drone_id_basic_id.go                    | 2 +-
 common/open_drone_id_location.go                    | 2 +-
 common/open_drone_id_message_pack.go                | 2 +-
 common/open_drone_id_operator_id.go                 | 2 +-
 common/open_drone_id_self_id.go                     | 2 +-
 common/open_drone_id_system.go                      | 2 +-
 common/optical_flow.go                              | 2 +-
 common/optical_flow_rad.go                          | 2 +-
 common/orbit_execution_status.go                    | 2 +-
 common/param_ext_ack.go                             | 2 +-
 common/param_ext_request_list.go                    | 2 +-
 common/param_ext_request_read.go                    | 2 +-
 common/param_ext_set.go                             | 2 +-
 common/param_ext_value.go                           | 2 +-
 common/param_map_rc.go                              | 2 +-
 common/param_request_list.go                        | 2 +-
 common/param_request_read.go                        | 2 +-
 common/param_set.go                                 | 2 +-
 common/param_value.go                               | 2 +-
 common/ping.go                                      | 2 +-
 common/play_tune.go                                 | 2 +-
 common/play_tune_v2.go                              | 2 +-
 common/position_target_global_int.go                | 2 +-
 common/position_target_local_ned.go                 | 2 +-
 common/power_status.go                              | 2 +-
 common/protocol_version.go                          | 2 +-
 common/radio_status.go                              | 2 +-
 common/raw_imu.go                                   | 2 +-
 common/raw_pressure.go                              | 2 +-
 common/rc_channels.go                               | 2 +-
 common/rc_channels_override.go                      | 2 +-
 common/rc_channels_raw.go                           | 2 +-
 common/rc_channels_scaled.go                        | 2 +-
 common/request_data_stream.go                       | 2 +-
 common/resource_request.go                          | 2 +-
 common/safety_allowed_area.go                       | 2 +-
 common/safety_set_allowed_area.go                   | 2 +-
 common/scaled_imu.go                                | 2 +-
 common/scaled_imu2.go                               | 2 +-
 common/scaled_imu3.go                               | 2 +-
 common/scaled_pressure.go                           | 2 +-
 common/scaled_pressure2.go                          | 2 +-
 common/scaled_pressure3.go                          | 2 +-
 common/serial_control.go                            | 2 +-
 common/servo_output_raw.go                          | 2 +-
 common/set_actuator_control_target.go               | 2 +-
 common/set_attitude_target.go                       | 2 +-
 common/set_gps_global_origin.go                     | 2 +-
 common/set_home_position.go                         | 2 +-
 common/set_mode.go                                  | 2 +-
 common/set_position_target_global_int.go            | 2 +-
 common/set_position_target_local_ned.go             | 2 +-
 common/setup_signing.go                             | 2 +-
 common/sim_state.go                                 | 2 +-
 common/smart_battery_info.go                        | 2 +-
 common/smart_battery_status.go                      | 2 +-
 common/statustext.go                                | 2 +-
 common/statustext_long.go                           | 2 +-
 common/storage_information.go                       | 2 +-
 common/supported_tunes.go                           | 2 +-
 common/sys_status.go                                | 2 +-
 common/system_time.go                               | 2 +-
 common/terrain_check.go                             | 2 +-
 common/terrain_data.go                              | 2 +-
 common/terrain_report.go                            | 2 +-
 common/terrain_request.go                           | 2 +-
 common/time_estimate_to_target.go                   | 2 +-
 common/timesync.go                                  | 2 +-
 common/trajectory_representation_bezier.go          | 2 +-
 common/trajectory_representation_waypoints.go       | 2 +-
 common/tunnel.go                                    | 2 +-
 common/uavcan_node_info.go                          | 2 +-
 common/uavcan_node_status.go                        | 2 +-
 common/utm_global_position.go                       | 2 +-
 common/vfr_hud.go                                   | 2 +-
 common/vibration.go                                 | 2 +-
 common/vicon_position_estimate.go                   | 2 +-
 common/video_stream_information.go                  | 2 +-
 common/video_stream_status.go                       | 2 +-
 common/vision_position_estimate.go                  | 2 +-
 common/vision_speed_estimate.go                     | 2 +-
 common/wheel_distance.go                            | 2 +-
 common/wifi_config_ap.go                            | 2 +-
 common/wind_cov.go                                  | 2 +-
 icarous/icarous_heartbeat.go                        | 2 +-
 icarous/icarous_kinematic_bands.go                  | 2 +-
 matrixpilot/airspeeds.go                            | 2 +-
 matrixpilot/altitudes.go                            | 2 +-
 matrixpilot/flexifunction_buffer_function.go        | 2 +-
 matrixpilot/flexifunction_buffer_function_ack.go    | 2 +-
 matrixpilot/flexifunction_command.go                | 2 +-
 matrixpilot/flexifunction_command_ack.go            | 2 +-
 matrixpilot/flexifunction_directory.go              | 2 +-
 matrixpilot/flexifunction_directory_ack.go          | 2 +-
 matrixpilot/flexifunction_read_req.go               | 2 +-
 matrixpilot/flexifunction_set.go                    | 2 +-
 matrixpilot/serial_udb_extra_f13.go                 | 2 +-
 matrixpilot/serial_udb_extra_f14.go                 | 2 +-
 matrixpilot/serial_udb_extra_f15.go                 | 2 +-
 matrixpilot/serial_udb_extra_f16.go                 | 2 +-
 matrixpilot/serial_udb_extra_f17.go                 | 2 +-
 matrixpilot/serial_udb_extra_f18.go                 | 2 +-
 matrixpilot/serial_udb_extra_f19.go                 | 2 +-
 matrixpilot/serial_udb_extra_f20.go                 | 2 +-
 matrixpilot/serial_udb_extra_f21.go                 | 2 +-
 matrixpilot/serial_udb_extra_f22.go                 | 2 +-
 matrixpilot/serial_udb_extra_f2_a.go                | 2 +-
 matrixpilot/serial_udb_extra_f2_b.go                | 2 +-
 matrixpilot/serial_udb_extra_f4.go                  | 2 +-
 matrixpilot/serial_udb_extra_f5.go                  | 2 +-
 matrixpilot/serial_udb_extra_f6.go                  | 2 +-
 matrixpilot/serial_udb_extra_f7.go                  | 2 +-
 matrixpilot/serial_udb_extra_f8.go                  | 2 +-
 paparazzi/script_count.go                           | 2 +-
 paparazzi/script_current.go                         | 2 +-
 paparazzi/script_item.go                            | 2 +-
 paparazzi/script_request.go                         | 2 +-
 paparazzi/script_request_list.go                    | 2 +-
 slugs/boot.go                                       | 2 +-
 slugs/control_surface.go                            | 2 +-
 slugs/cpu_load.go                                   | 2 +-
 slugs/ctrl_srfc_pt.go                               | 2 +-
 slugs/data_log.go                                   | 2 +-
 slugs/diagnostic.go                                 | 2 +-
 slugs/gps_date_time.go                              | 2 +-
 slugs/isr_location.go                               | 2 +-
 slugs/mid_lvl_cmds.go                               | 2 +-
 slugs/novatel_diag.go                               | 2 +-
 slugs/ptz_status.go                                 | 2 +-
 slugs/sensor_bias.go                                | 2 +-
 slugs/sensor_diag.go                                | 2 +-
 slugs/slugs_camera_order.go                         | 2 +-
 slugs/slugs_configuration_camera.go                 | 2 +-
 slugs/slugs_mobile_location.go                      | 2 +-
 slugs/slugs_navigation.go                           | 2 +-
 slugs/status_gps.go                                 | 2 +-
 slugs/uav_status.go                                 | 2 +-
 slugs/volt_sensor.go                                | 2 +-
 uAvionix/uavionix_adsb_out_cfg.go                   | 2 +-
 uAvionix/uavionix_adsb_out_dynamic.go               | 2 +-
 uAvionix/uavionix_adsb_transceiver_health_report.go | 2 +-
 ualberta/nav_filter_bias.go                         | 2 +-
 ualberta/radio_calibration.go                       | 2 +-
 ualberta/ualberta_sys_status.go                     | 2 +-
 330 files changed, 330 insertions(+), 330 deletions(-)

diff --git a/ardupilotmega/adap_tuning.go b/ardupilotmega/adap_tuning.go
index 929837d..f72de72 100644
--- a/ardupilotmega/adap_tuning.go
+++ b/ardupilotmega/adap_tuning.go
@@ -178,7 +178,7 @@ func (m *AdapTuning) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ahrs.go b/ardupilotmega/ahrs.go
index 0ee6a9e..5e0e325 100644
--- a/ardupilotmega/ahrs.go
+++ b/ardupilotmega/ahrs.go
@@ -154,7 +154,7 @@ func (m *AHRS) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ahrs2.go b/ardupilotmega/ahrs2.go
index 5a694a5..220f9d3 100644
--- a/ardupilotmega/ahrs2.go
+++ b/ardupilotmega/ahrs2.go
@@ -150,7 +150,7 @@ func (m *AHRS2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ahrs3.go b/ardupilotmega/ahrs3.go
index fe1d6bd..cc95e74 100644
--- a/ardupilotmega/ahrs3.go
+++ b/ardupilotmega/ahrs3.go
@@ -166,7 +166,7 @@ func (m *AHRS3) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/airspeed_autocal.go b/ardupilotmega/airspeed_autocal.go
index 3fff0f1..a44f11d 100644
--- a/ardupilotmega/airspeed_autocal.go
+++ b/ardupilotmega/airspeed_autocal.go
@@ -174,7 +174,7 @@ func (m *AirspeedAutocal) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/aoa_ssa.go b/ardupilotmega/aoa_ssa.go
index 1f08802..8bf88eb 100644
--- a/ardupilotmega/aoa_ssa.go
+++ b/ardupilotmega/aoa_ssa.go
@@ -138,7 +138,7 @@ func (m *AoaSsa) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ap_adc.go b/ardupilotmega/ap_adc.go
index 1fd2dc8..98b2d3b 100644
--- a/ardupilotmega/ap_adc.go
+++ b/ardupilotmega/ap_adc.go
@@ -150,7 +150,7 @@ func (m *ApAdc) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/autopilot_version_request.go b/ardupilotmega/autopilot_version_request.go
index 8955f61..1069d2d 100644
--- a/ardupilotmega/autopilot_version_request.go
+++ b/ardupilotmega/autopilot_version_request.go
@@ -134,7 +134,7 @@ func (m *AutopilotVersionRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/battery2.go b/ardupilotmega/battery2.go
index 40dbd43..be9c7ac 100644
--- a/ardupilotmega/battery2.go
+++ b/ardupilotmega/battery2.go
@@ -134,7 +134,7 @@ func (m *Battery2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/camera_feedback.go b/ardupilotmega/camera_feedback.go
index 0e1fe6a..139c708 100644
--- a/ardupilotmega/camera_feedback.go
+++ b/ardupilotmega/camera_feedback.go
@@ -209,7 +209,7 @@ func (m *CameraFeedback) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/camera_status.go b/ardupilotmega/camera_status.go
index e9fb82b..aba096b 100644
--- a/ardupilotmega/camera_status.go
+++ b/ardupilotmega/camera_status.go
@@ -162,7 +162,7 @@ func (m *CameraStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/compassmot_status.go b/ardupilotmega/compassmot_status.go
index 379ec9d..7e11797 100644
--- a/ardupilotmega/compassmot_status.go
+++ b/ardupilotmega/compassmot_status.go
@@ -150,7 +150,7 @@ func (m *CompassmotStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/data16.go b/ardupilotmega/data16.go
index 1aad1fd..4523ec7 100644
--- a/ardupilotmega/data16.go
+++ b/ardupilotmega/data16.go
@@ -138,7 +138,7 @@ func (m *Data16) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/data32.go b/ardupilotmega/data32.go
index 15c081a..5a29d0e 100644
--- a/ardupilotmega/data32.go
+++ b/ardupilotmega/data32.go
@@ -138,7 +138,7 @@ func (m *Data32) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/data64.go b/ardupilotmega/data64.go
index 79b3f0d..f035ee6 100644
--- a/ardupilotmega/data64.go
+++ b/ardupilotmega/data64.go
@@ -138,7 +138,7 @@ func (m *Data64) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/data96.go b/ardupilotmega/data96.go
index 3863788..f0d5099 100644
--- a/ardupilotmega/data96.go
+++ b/ardupilotmega/data96.go
@@ -138,7 +138,7 @@ func (m *Data96) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/deepstall.go b/ardupilotmega/deepstall.go
index 99a5d0a..c9fd2da 100644
--- a/ardupilotmega/deepstall.go
+++ b/ardupilotmega/deepstall.go
@@ -166,7 +166,7 @@ func (m *Deepstall) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index d7af7e1..11e9092 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -183,7 +183,7 @@ func (m *DeviceOpRead) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/device_op_read_reply.go b/ardupilotmega/device_op_read_reply.go
index 9f207e3..76145d1 100644
--- a/ardupilotmega/device_op_read_reply.go
+++ b/ardupilotmega/device_op_read_reply.go
@@ -146,7 +146,7 @@ func (m *DeviceOpReadReply) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index 00e0bd0..ef2ef65 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -187,7 +187,7 @@ func (m *DeviceOpWrite) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/device_op_write_reply.go b/ardupilotmega/device_op_write_reply.go
index acd3606..875f386 100644
--- a/ardupilotmega/device_op_write_reply.go
+++ b/ardupilotmega/device_op_write_reply.go
@@ -134,7 +134,7 @@ func (m *DeviceOpWriteReply) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/digicam_configure.go b/ardupilotmega/digicam_configure.go
index b2235d5..0f8a58e 100644
--- a/ardupilotmega/digicam_configure.go
+++ b/ardupilotmega/digicam_configure.go
@@ -170,7 +170,7 @@ func (m *DigicamConfigure) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/digicam_control.go b/ardupilotmega/digicam_control.go
index 656afa1..258d0f7 100644
--- a/ardupilotmega/digicam_control.go
+++ b/ardupilotmega/digicam_control.go
@@ -166,7 +166,7 @@ func (m *DigicamControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/efi_status.go b/ardupilotmega/efi_status.go
index f9e64b9..8332d27 100644
--- a/ardupilotmega/efi_status.go
+++ b/ardupilotmega/efi_status.go
@@ -182,7 +182,7 @@ func (m *EfiStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ekf_status_report.go b/ardupilotmega/ekf_status_report.go
index 115dfc2..e995deb 100644
--- a/ardupilotmega/ekf_status_report.go
+++ b/ardupilotmega/ekf_status_report.go
@@ -174,7 +174,7 @@ func (m *EKFStatusReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/esc_telemetry_1_to_4.go b/ardupilotmega/esc_telemetry_1_to_4.go
index 41734c3..d017288 100644
--- a/ardupilotmega/esc_telemetry_1_to_4.go
+++ b/ardupilotmega/esc_telemetry_1_to_4.go
@@ -150,7 +150,7 @@ func (m *EscTelemetry1To4) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/esc_telemetry_5_to_8.go b/ardupilotmega/esc_telemetry_5_to_8.go
index 4a34c84..c06272d 100644
--- a/ardupilotmega/esc_telemetry_5_to_8.go
+++ b/ardupilotmega/esc_telemetry_5_to_8.go
@@ -150,7 +150,7 @@ func (m *EscTelemetry5To8) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/esc_telemetry_9_to_12.go b/ardupilotmega/esc_telemetry_9_to_12.go
index d22283c..181f58d 100644
--- a/ardupilotmega/esc_telemetry_9_to_12.go
+++ b/ardupilotmega/esc_telemetry_9_to_12.go
@@ -150,7 +150,7 @@ func (m *EscTelemetry9To12) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/fence_fetch_point.go b/ardupilotmega/fence_fetch_point.go
index 30e323e..31f5b09 100644
--- a/ardupilotmega/fence_fetch_point.go
+++ b/ardupilotmega/fence_fetch_point.go
@@ -138,7 +138,7 @@ func (m *FenceFetchPoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/fence_point.go b/ardupilotmega/fence_point.go
index 8a42f44..80239a3 100644
--- a/ardupilotmega/fence_point.go
+++ b/ardupilotmega/fence_point.go
@@ -150,7 +150,7 @@ func (m *FencePoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/fence_status.go b/ardupilotmega/fence_status.go
index aecd135..08607e4 100644
--- a/ardupilotmega/fence_status.go
+++ b/ardupilotmega/fence_status.go
@@ -142,7 +142,7 @@ func (m *FenceStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gimbal_control.go b/ardupilotmega/gimbal_control.go
index c251f4e..e7944fc 100644
--- a/ardupilotmega/gimbal_control.go
+++ b/ardupilotmega/gimbal_control.go
@@ -146,7 +146,7 @@ func (m *GimbalControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gimbal_report.go b/ardupilotmega/gimbal_report.go
index 6597af2..50b47b5 100644
--- a/ardupilotmega/gimbal_report.go
+++ b/ardupilotmega/gimbal_report.go
@@ -174,7 +174,7 @@ func (m *GimbalReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gimbal_torque_cmd_report.go b/ardupilotmega/gimbal_torque_cmd_report.go
index 49a40ca..4bee5ee 100644
--- a/ardupilotmega/gimbal_torque_cmd_report.go
+++ b/ardupilotmega/gimbal_torque_cmd_report.go
@@ -146,7 +146,7 @@ func (m *GimbalTorqueCmdReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_get_request.go b/ardupilotmega/gopro_get_request.go
index 1070f1e..ed2649e 100644
--- a/ardupilotmega/gopro_get_request.go
+++ b/ardupilotmega/gopro_get_request.go
@@ -138,7 +138,7 @@ func (m *GoproGetRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_get_response.go b/ardupilotmega/gopro_get_response.go
index b9cdb1b..b3fbedf 100644
--- a/ardupilotmega/gopro_get_response.go
+++ b/ardupilotmega/gopro_get_response.go
@@ -138,7 +138,7 @@ func (m *GoproGetResponse) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_heartbeat.go b/ardupilotmega/gopro_heartbeat.go
index c5a2ce0..f91507b 100644
--- a/ardupilotmega/gopro_heartbeat.go
+++ b/ardupilotmega/gopro_heartbeat.go
@@ -138,7 +138,7 @@ func (m *GoproHeartbeat) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_set_request.go b/ardupilotmega/gopro_set_request.go
index 4a3ca8d..81d5ea7 100644
--- a/ardupilotmega/gopro_set_request.go
+++ b/ardupilotmega/gopro_set_request.go
@@ -142,7 +142,7 @@ func (m *GoproSetRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_set_response.go b/ardupilotmega/gopro_set_response.go
index 0e54e7b..a168fb4 100644
--- a/ardupilotmega/gopro_set_response.go
+++ b/ardupilotmega/gopro_set_response.go
@@ -134,7 +134,7 @@ func (m *GoproSetResponse) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/hwstatus.go b/ardupilotmega/hwstatus.go
index 471c99f..787182b 100644
--- a/ardupilotmega/hwstatus.go
+++ b/ardupilotmega/hwstatus.go
@@ -134,7 +134,7 @@ func (m *HWstatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/led_control.go b/ardupilotmega/led_control.go
index 518ef80..bc6495c 100644
--- a/ardupilotmega/led_control.go
+++ b/ardupilotmega/led_control.go
@@ -150,7 +150,7 @@ func (m *LedControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/limits_status.go b/ardupilotmega/limits_status.go
index 46513cd..48512c0 100644
--- a/ardupilotmega/limits_status.go
+++ b/ardupilotmega/limits_status.go
@@ -162,7 +162,7 @@ func (m *LimitsStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mag_cal_progress.go b/ardupilotmega/mag_cal_progress.go
index b25589c..aef9fe7 100644
--- a/ardupilotmega/mag_cal_progress.go
+++ b/ardupilotmega/mag_cal_progress.go
@@ -162,7 +162,7 @@ func (m *MagCalProgress) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mag_cal_report.go b/ardupilotmega/mag_cal_report.go
index 35c8bdf..b4c79d2 100644
--- a/ardupilotmega/mag_cal_report.go
+++ b/ardupilotmega/mag_cal_report.go
@@ -226,7 +226,7 @@ func (m *MagCalReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/meminfo.go b/ardupilotmega/meminfo.go
index 58def65..0c90f9b 100644
--- a/ardupilotmega/meminfo.go
+++ b/ardupilotmega/meminfo.go
@@ -154,7 +154,7 @@ func (m *MemInfo) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mount_configure.go b/ardupilotmega/mount_configure.go
index 15af8e7..77cd653 100644
--- a/ardupilotmega/mount_configure.go
+++ b/ardupilotmega/mount_configure.go
@@ -150,7 +150,7 @@ func (m *MountConfigure) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mount_control.go b/ardupilotmega/mount_control.go
index d50abf4..2ca2f34 100644
--- a/ardupilotmega/mount_control.go
+++ b/ardupilotmega/mount_control.go
@@ -150,7 +150,7 @@ func (m *MountControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mount_status.go b/ardupilotmega/mount_status.go
index 4071c8f..b04e39d 100644
--- a/ardupilotmega/mount_status.go
+++ b/ardupilotmega/mount_status.go
@@ -146,7 +146,7 @@ func (m *MountStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/pid_tuning.go b/ardupilotmega/pid_tuning.go
index 271bf5d..4c21839 100644
--- a/ardupilotmega/pid_tuning.go
+++ b/ardupilotmega/pid_tuning.go
@@ -154,7 +154,7 @@ func (m *PIDTuning) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/radio.go b/ardupilotmega/radio.go
index d7bea1a..12445d0 100644
--- a/ardupilotmega/radio.go
+++ b/ardupilotmega/radio.go
@@ -154,7 +154,7 @@ func (m *Radio) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/rally_fetch_point.go b/ardupilotmega/rally_fetch_point.go
index 0c70fa2..b366236 100644
--- a/ardupilotmega/rally_fetch_point.go
+++ b/ardupilotmega/rally_fetch_point.go
@@ -138,7 +138,7 @@ func (m *RallyFetchPoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/rally_point.go b/ardupilotmega/rally_point.go
index 71a7cc1..8b65923 100644
--- a/ardupilotmega/rally_point.go
+++ b/ardupilotmega/rally_point.go
@@ -166,7 +166,7 @@ func (m *RallyPoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/rangefinder.go b/ardupilotmega/rangefinder.go
index 561810b..671e18f 100644
--- a/ardupilotmega/rangefinder.go
+++ b/ardupilotmega/rangefinder.go
@@ -134,7 +134,7 @@ func (m *Rangefinder) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/remote_log_block_status.go b/ardupilotmega/remote_log_block_status.go
index 398720c..a01bf45 100644
--- a/ardupilotmega/remote_log_block_status.go
+++ b/ardupilotmega/remote_log_block_status.go
@@ -142,7 +142,7 @@ func (m *RemoteLogBlockStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/remote_log_data_block.go b/ardupilotmega/remote_log_data_block.go
index 40e4022..bdce9f6 100644
--- a/ardupilotmega/remote_log_data_block.go
+++ b/ardupilotmega/remote_log_data_block.go
@@ -142,7 +142,7 @@ func (m *RemoteLogDataBlock) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/rpm.go b/ardupilotmega/rpm.go
index 72816d1..2504aba 100644
--- a/ardupilotmega/rpm.go
+++ b/ardupilotmega/rpm.go
@@ -134,7 +134,7 @@ func (m *Rpm) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/sensor_offsets.go b/ardupilotmega/sensor_offsets.go
index c42230f..8da244e 100644
--- a/ardupilotmega/sensor_offsets.go
+++ b/ardupilotmega/sensor_offsets.go
@@ -174,7 +174,7 @@ func (m *SensorOffsets) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/set_mag_offsets.go b/ardupilotmega/set_mag_offsets.go
index 6cfd63b..7fe8441 100644
--- a/ardupilotmega/set_mag_offsets.go
+++ b/ardupilotmega/set_mag_offsets.go
@@ -146,7 +146,7 @@ func (m *SetMagOffsets) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/simstate.go b/ardupilotmega/simstate.go
index 6db2580..fdcad2d 100644
--- a/ardupilotmega/simstate.go
+++ b/ardupilotmega/simstate.go
@@ -170,7 +170,7 @@ func (m *SimState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/vision_position_delta.go b/ardupilotmega/vision_position_delta.go
index 5bdec35..9cf2272 100644
--- a/ardupilotmega/vision_position_delta.go
+++ b/ardupilotmega/vision_position_delta.go
@@ -146,7 +146,7 @@ func (m *VisionPositionDelta) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/wind.go b/ardupilotmega/wind.go
index 836b2b3..84950d6 100644
--- a/ardupilotmega/wind.go
+++ b/ardupilotmega/wind.go
@@ -138,7 +138,7 @@ func (m *Wind) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/asl_obctrl.go b/asluav/asl_obctrl.go
index 811069e..624f719 100644
--- a/asluav/asl_obctrl.go
+++ b/asluav/asl_obctrl.go
@@ -158,7 +158,7 @@ func (m *AslObctrl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/aslctrl_data.go b/asluav/aslctrl_data.go
index e687046..cb3ef9c 100644
--- a/asluav/aslctrl_data.go
+++ b/asluav/aslctrl_data.go
@@ -226,7 +226,7 @@ func (m *AslctrlData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/aslctrl_debug.go b/asluav/aslctrl_debug.go
index df6d40e..b11ea0a 100644
--- a/asluav/aslctrl_debug.go
+++ b/asluav/aslctrl_debug.go
@@ -170,7 +170,7 @@ func (m *AslctrlDebug) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/asluav_status.go b/asluav/asluav_status.go
index 9629cc7..bb56ca0 100644
--- a/asluav/asluav_status.go
+++ b/asluav/asluav_status.go
@@ -142,7 +142,7 @@ func (m *AsluavStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/command_int_stamped.go b/asluav/command_int_stamped.go
index b99d6dd..166d91a 100644
--- a/asluav/command_int_stamped.go
+++ b/asluav/command_int_stamped.go
@@ -186,7 +186,7 @@ func (m *CommandIntStamped) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/command_long_stamped.go b/asluav/command_long_stamped.go
index ee41823..583361c 100644
--- a/asluav/command_long_stamped.go
+++ b/asluav/command_long_stamped.go
@@ -178,7 +178,7 @@ func (m *CommandLongStamped) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/ekf_ext.go b/asluav/ekf_ext.go
index 35c5ca7..49c1ae1 100644
--- a/asluav/ekf_ext.go
+++ b/asluav/ekf_ext.go
@@ -154,7 +154,7 @@ func (m *EKFExt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/fw_soaring_data.go b/asluav/fw_soaring_data.go
index 2c489cf..f28997c 100644
--- a/asluav/fw_soaring_data.go
+++ b/asluav/fw_soaring_data.go
@@ -226,7 +226,7 @@ func (m *FwSoaringData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/gsm_link_status.go b/asluav/gsm_link_status.go
index 1f3dbe4..996ead0 100644
--- a/asluav/gsm_link_status.go
+++ b/asluav/gsm_link_status.go
@@ -154,7 +154,7 @@ func (m *GsmLinkStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/satcom_link_status.go b/asluav/satcom_link_status.go
index 7e77426..27a0392 100644
--- a/asluav/satcom_link_status.go
+++ b/asluav/satcom_link_status.go
@@ -158,7 +158,7 @@ func (m *SatcomLinkStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_atmos.go b/asluav/sens_atmos.go
index 8be71ff..1a30289 100644
--- a/asluav/sens_atmos.go
+++ b/asluav/sens_atmos.go
@@ -138,7 +138,7 @@ func (m *SensAtmos) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_batmon.go b/asluav/sens_batmon.go
index 4a86d45..5e85071 100644
--- a/asluav/sens_batmon.go
+++ b/asluav/sens_batmon.go
@@ -186,7 +186,7 @@ func (m *SensBatmon) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_mppt.go b/asluav/sens_mppt.go
index 6d9ca6c..2af9989 100644
--- a/asluav/sens_mppt.go
+++ b/asluav/sens_mppt.go
@@ -178,7 +178,7 @@ func (m *SensMppt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_power.go b/asluav/sens_power.go
index 6511f98..b4f876f 100644
--- a/asluav/sens_power.go
+++ b/asluav/sens_power.go
@@ -142,7 +142,7 @@ func (m *SensPower) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_power_board.go b/asluav/sens_power_board.go
index 9bc13ca..6cb2e26 100644
--- a/asluav/sens_power_board.go
+++ b/asluav/sens_power_board.go
@@ -174,7 +174,7 @@ func (m *SensPowerBoard) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sensorpod_status.go b/asluav/sensorpod_status.go
index 038089c..d2e4497 100644
--- a/asluav/sensorpod_status.go
+++ b/asluav/sensorpod_status.go
@@ -158,7 +158,7 @@ func (m *SensorpodStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/autoquad/aq_esc_telemetry.go b/autoquad/aq_esc_telemetry.go
index 14fffc8..7375a8b 100644
--- a/autoquad/aq_esc_telemetry.go
+++ b/autoquad/aq_esc_telemetry.go
@@ -173,7 +173,7 @@ func (m *AqEscTelemetry) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/autoquad/aq_telemetry_f.go b/autoquad/aq_telemetry_f.go
index 13f1a82..b469220 100644
--- a/autoquad/aq_telemetry_f.go
+++ b/autoquad/aq_telemetry_f.go
@@ -210,7 +210,7 @@ func (m *AqTelemetryF) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/actuator_control_target.go b/common/actuator_control_target.go
index dd5e6e0..aa46de4 100644
--- a/common/actuator_control_target.go
+++ b/common/actuator_control_target.go
@@ -138,7 +138,7 @@ func (m *ActuatorControlTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/actuator_output_status.go b/common/actuator_output_status.go
index bb8ee9e..665aaa5 100644
--- a/common/actuator_output_status.go
+++ b/common/actuator_output_status.go
@@ -138,7 +138,7 @@ func (m *ActuatorOutputStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index 25d7bf7..5823788 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -199,7 +199,7 @@ func (m *AdsbVehicle) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 497e532..6f4bfdc 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -235,7 +235,7 @@ func (m *AisVessel) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/altitude.go b/common/altitude.go
index 751839c..44b6ff3 100644
--- a/common/altitude.go
+++ b/common/altitude.go
@@ -154,7 +154,7 @@ func (m *Altitude) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/att_pos_mocap.go b/common/att_pos_mocap.go
index cbf2341..39bbcd4 100644
--- a/common/att_pos_mocap.go
+++ b/common/att_pos_mocap.go
@@ -169,7 +169,7 @@ func (m *AttPosMocap) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/attitude.go b/common/attitude.go
index 0f1de81..b88a34a 100644
--- a/common/attitude.go
+++ b/common/attitude.go
@@ -154,7 +154,7 @@ func (m *Attitude) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/attitude_quaternion.go b/common/attitude_quaternion.go
index 2058c73..7168e63 100644
--- a/common/attitude_quaternion.go
+++ b/common/attitude_quaternion.go
@@ -184,7 +184,7 @@ func (m *AttitudeQuaternion) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/attitude_quaternion_cov.go b/common/attitude_quaternion_cov.go
index 88887f3..1d58823 100644
--- a/common/attitude_quaternion_cov.go
+++ b/common/attitude_quaternion_cov.go
@@ -150,7 +150,7 @@ func (m *AttitudeQuaternionCov) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/attitude_target.go b/common/attitude_target.go
index b6b7ad0..aea0565 100644
--- a/common/attitude_target.go
+++ b/common/attitude_target.go
@@ -154,7 +154,7 @@ func (m *AttitudeTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/auth_key.go b/common/auth_key.go
index f2af34e..1eb516c 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -151,7 +151,7 @@ func (m *AuthKey) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/autopilot_version.go b/common/autopilot_version.go
index 23fc0ca..987c54c 100644
--- a/common/autopilot_version.go
+++ b/common/autopilot_version.go
@@ -199,7 +199,7 @@ func (m *AutopilotVersion) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/battery_status.go b/common/battery_status.go
index 5fcd3ea..8427761 100644
--- a/common/battery_status.go
+++ b/common/battery_status.go
@@ -193,7 +193,7 @@ func (m *BatteryStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/button_change.go b/common/button_change.go
index 342b08b..d32286e 100644
--- a/common/button_change.go
+++ b/common/button_change.go
@@ -138,7 +138,7 @@ func (m *ButtonChange) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_capture_status.go b/common/camera_capture_status.go
index e86dced..8944741 100644
--- a/common/camera_capture_status.go
+++ b/common/camera_capture_status.go
@@ -150,7 +150,7 @@ func (m *CameraCaptureStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index bfc2cbc..fa813e0 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -191,7 +191,7 @@ func (m *CameraImageCaptured) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_information.go b/common/camera_information.go
index efbd79d..01e0357 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -199,7 +199,7 @@ func (m *CameraInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_settings.go b/common/camera_settings.go
index 2f31056..9e3bb80 100644
--- a/common/camera_settings.go
+++ b/common/camera_settings.go
@@ -158,7 +158,7 @@ func (m *CameraSettings) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_trigger.go b/common/camera_trigger.go
index 9c6657f..6a4ec5b 100644
--- a/common/camera_trigger.go
+++ b/common/camera_trigger.go
@@ -134,7 +134,7 @@ func (m *CameraTrigger) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/cellular_status.go b/common/cellular_status.go
index fc59d18..de960ab 100644
--- a/common/cellular_status.go
+++ b/common/cellular_status.go
@@ -154,7 +154,7 @@ func (m *CellularStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index ddc101e..d1b7d87 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -163,7 +163,7 @@ func (m *ChangeOperatorControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/change_operator_control_ack.go b/common/change_operator_control_ack.go
index 189c050..0911956 100644
--- a/common/change_operator_control_ack.go
+++ b/common/change_operator_control_ack.go
@@ -138,7 +138,7 @@ func (m *ChangeOperatorControlAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/collision.go b/common/collision.go
index c48ef7f..5db5ec9 100644
--- a/common/collision.go
+++ b/common/collision.go
@@ -154,7 +154,7 @@ func (m *Collision) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/command_ack.go b/common/command_ack.go
index 17d5585..ddd4d2a 100644
--- a/common/command_ack.go
+++ b/common/command_ack.go
@@ -166,7 +166,7 @@ func (m *CommandAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/command_int.go b/common/command_int.go
index f50843e..3c5476f 100644
--- a/common/command_int.go
+++ b/common/command_int.go
@@ -178,7 +178,7 @@ func (m *CommandInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/command_long.go b/common/command_long.go
index 651ca74..20915b7 100644
--- a/common/command_long.go
+++ b/common/command_long.go
@@ -170,7 +170,7 @@ func (m *CommandLong) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/component_information.go b/common/component_information.go
index 59bd067..6a3156c 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -179,7 +179,7 @@ func (m *ComponentInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/control_system_state.go b/common/control_system_state.go
index 6b8ad24..d20f9b4 100644
--- a/common/control_system_state.go
+++ b/common/control_system_state.go
@@ -194,7 +194,7 @@ func (m *ControlSystemState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/data_stream.go b/common/data_stream.go
index d8a0cec..8527a6c 100644
--- a/common/data_stream.go
+++ b/common/data_stream.go
@@ -138,7 +138,7 @@ func (m *DataStream) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/data_transmission_handshake.go b/common/data_transmission_handshake.go
index 81e7fd9..6d82911 100644
--- a/common/data_transmission_handshake.go
+++ b/common/data_transmission_handshake.go
@@ -154,7 +154,7 @@ func (m *DataTransmissionHandshake) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/debug.go b/common/debug.go
index c747e09..53a19fd 100644
--- a/common/debug.go
+++ b/common/debug.go
@@ -138,7 +138,7 @@ func (m *Debug) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index 68cc81f..c79c85e 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -180,7 +180,7 @@ func (m *DebugFloatArray) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/debug_vect.go b/common/debug_vect.go
index dc4dc20..fabe39c 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -167,7 +167,7 @@ func (m *DebugVect) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/distance_sensor.go b/common/distance_sensor.go
index 0ff76bc..1369898 100644
--- a/common/distance_sensor.go
+++ b/common/distance_sensor.go
@@ -192,7 +192,7 @@ func (m *DistanceSensor) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/encapsulated_data.go b/common/encapsulated_data.go
index 301db09..a57cc18 100644
--- a/common/encapsulated_data.go
+++ b/common/encapsulated_data.go
@@ -134,7 +134,7 @@ func (m *EncapsulatedData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/estimator_status.go b/common/estimator_status.go
index d915c02..7eef9fd 100644
--- a/common/estimator_status.go
+++ b/common/estimator_status.go
@@ -166,7 +166,7 @@ func (m *EstimatorStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/extended_sys_state.go b/common/extended_sys_state.go
index 4f02c4d..88844c1 100644
--- a/common/extended_sys_state.go
+++ b/common/extended_sys_state.go
@@ -134,7 +134,7 @@ func (m *ExtendedSysState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/fence_status.go b/common/fence_status.go
index d936088..2c27c02 100644
--- a/common/fence_status.go
+++ b/common/fence_status.go
@@ -164,7 +164,7 @@ func (m *FenceStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/file_transfer_protocol.go b/common/file_transfer_protocol.go
index 443131c..69f7be0 100644
--- a/common/file_transfer_protocol.go
+++ b/common/file_transfer_protocol.go
@@ -142,7 +142,7 @@ func (m *FileTransferProtocol) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/flight_information.go b/common/flight_information.go
index 454bb30..56b2bfc 100644
--- a/common/flight_information.go
+++ b/common/flight_information.go
@@ -142,7 +142,7 @@ func (m *FlightInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/follow_target.go b/common/follow_target.go
index f5b9b5e..38fc00a 100644
--- a/common/follow_target.go
+++ b/common/follow_target.go
@@ -170,7 +170,7 @@ func (m *FollowTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/global_position_int.go b/common/global_position_int.go
index e0e6ccc..a321366 100644
--- a/common/global_position_int.go
+++ b/common/global_position_int.go
@@ -163,7 +163,7 @@ func (m *GlobalPositionInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/global_position_int_cov.go b/common/global_position_int_cov.go
index e74aa34..5898fc3 100644
--- a/common/global_position_int_cov.go
+++ b/common/global_position_int_cov.go
@@ -166,7 +166,7 @@ func (m *GlobalPositionIntCov) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/global_vision_position_estimate.go b/common/global_vision_position_estimate.go
index 0bd623e..af83ebb 100644
--- a/common/global_vision_position_estimate.go
+++ b/common/global_vision_position_estimate.go
@@ -183,7 +183,7 @@ func (m *GlobalVisionPositionEstimate) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps2_raw.go b/common/gps2_raw.go
index 751a0af..b8723f3 100644
--- a/common/gps2_raw.go
+++ b/common/gps2_raw.go
@@ -174,7 +174,7 @@ func (m *GPS2Raw) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps2_rtk.go b/common/gps2_rtk.go
index 6b60606..fa19ba8 100644
--- a/common/gps2_rtk.go
+++ b/common/gps2_rtk.go
@@ -178,7 +178,7 @@ func (m *GPS2Rtk) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_global_origin.go b/common/gps_global_origin.go
index 7bc866f..3fea729 100644
--- a/common/gps_global_origin.go
+++ b/common/gps_global_origin.go
@@ -159,7 +159,7 @@ func (m *GPSGlobalOrigin) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_inject_data.go b/common/gps_inject_data.go
index 8f4249d..bf49e94 100644
--- a/common/gps_inject_data.go
+++ b/common/gps_inject_data.go
@@ -142,7 +142,7 @@ func (m *GPSInjectData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_input.go b/common/gps_input.go
index 3ff46a1..9db32b9 100644
--- a/common/gps_input.go
+++ b/common/gps_input.go
@@ -234,7 +234,7 @@ func (m *GPSInput) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_raw_int.go b/common/gps_raw_int.go
index 83cdd18..19ecdb9 100644
--- a/common/gps_raw_int.go
+++ b/common/gps_raw_int.go
@@ -211,7 +211,7 @@ func (m *GPSRawInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_rtcm_data.go b/common/gps_rtcm_data.go
index ef359ad..4266975 100644
--- a/common/gps_rtcm_data.go
+++ b/common/gps_rtcm_data.go
@@ -138,7 +138,7 @@ func (m *GPSRtcmData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_rtk.go b/common/gps_rtk.go
index 38a226b..435e077 100644
--- a/common/gps_rtk.go
+++ b/common/gps_rtk.go
@@ -178,7 +178,7 @@ func (m *GPSRtk) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_status.go b/common/gps_status.go
index 64a8e7e..9981035 100644
--- a/common/gps_status.go
+++ b/common/gps_status.go
@@ -150,7 +150,7 @@ func (m *GPSStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/heartbeat.go b/common/heartbeat.go
index 0314d50..b8d4d72 100644
--- a/common/heartbeat.go
+++ b/common/heartbeat.go
@@ -150,7 +150,7 @@ func (m *Heartbeat) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/high_latency.go b/common/high_latency.go
index 50f658b..118ac6c 100644
--- a/common/high_latency.go
+++ b/common/high_latency.go
@@ -222,7 +222,7 @@ func (m *HighLatency) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/high_latency2.go b/common/high_latency2.go
index a64a761..e52c897 100644
--- a/common/high_latency2.go
+++ b/common/high_latency2.go
@@ -234,7 +234,7 @@ func (m *HighLatency2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/highres_imu.go b/common/highres_imu.go
index 609a995..dd3f9d9 100644
--- a/common/highres_imu.go
+++ b/common/highres_imu.go
@@ -219,7 +219,7 @@ func (m *HighresIMU) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_actuator_controls.go b/common/hil_actuator_controls.go
index 2fe7d5d..c0432a4 100644
--- a/common/hil_actuator_controls.go
+++ b/common/hil_actuator_controls.go
@@ -142,7 +142,7 @@ func (m *HilActuatorControls) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_controls.go b/common/hil_controls.go
index 7269b28..9761465 100644
--- a/common/hil_controls.go
+++ b/common/hil_controls.go
@@ -170,7 +170,7 @@ func (m *HilControls) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_gps.go b/common/hil_gps.go
index 9e2d1fd..e2e5c98 100644
--- a/common/hil_gps.go
+++ b/common/hil_gps.go
@@ -179,7 +179,7 @@ func (m *HilGPS) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_optical_flow.go b/common/hil_optical_flow.go
index a7e6306..c1f76e5 100644
--- a/common/hil_optical_flow.go
+++ b/common/hil_optical_flow.go
@@ -174,7 +174,7 @@ func (m *HilOpticalFlow) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_rc_inputs_raw.go b/common/hil_rc_inputs_raw.go
index d4afcdf..0dc6c6a 100644
--- a/common/hil_rc_inputs_raw.go
+++ b/common/hil_rc_inputs_raw.go
@@ -182,7 +182,7 @@ func (m *HilRCInputsRaw) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_sensor.go b/common/hil_sensor.go
index 628975b..3e3d0d1 100644
--- a/common/hil_sensor.go
+++ b/common/hil_sensor.go
@@ -186,7 +186,7 @@ func (m *HilSensor) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_state.go b/common/hil_state.go
index 9646f84..5a7b99e 100644
--- a/common/hil_state.go
+++ b/common/hil_state.go
@@ -190,7 +190,7 @@ func (m *HilState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_state_quaternion.go b/common/hil_state_quaternion.go
index 51d346c..5ece4c6 100644
--- a/common/hil_state_quaternion.go
+++ b/common/hil_state_quaternion.go
@@ -190,7 +190,7 @@ func (m *HilStateQuaternion) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/home_position.go b/common/home_position.go
index 274e3c2..d6b2fd7 100644
--- a/common/home_position.go
+++ b/common/home_position.go
@@ -194,7 +194,7 @@ func (m *HomePosition) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/isbd_link_status.go b/common/isbd_link_status.go
index e89d892..abf4db8 100644
--- a/common/isbd_link_status.go
+++ b/common/isbd_link_status.go
@@ -158,7 +158,7 @@ func (m *IsbdLinkStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/landing_target.go b/common/landing_target.go
index ba1f8cf..5e554c7 100644
--- a/common/landing_target.go
+++ b/common/landing_target.go
@@ -204,7 +204,7 @@ func (m *LandingTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/link_node_status.go b/common/link_node_status.go
index a3702ab..7f0ec15 100644
--- a/common/link_node_status.go
+++ b/common/link_node_status.go
@@ -170,7 +170,7 @@ func (m *LinkNodeStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/local_position_ned.go b/common/local_position_ned.go
index 7dc18c6..f4c4c7c 100644
--- a/common/local_position_ned.go
+++ b/common/local_position_ned.go
@@ -154,7 +154,7 @@ func (m *LocalPositionNed) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/local_position_ned_cov.go b/common/local_position_ned_cov.go
index 44aa87e..3afe05e 100644
--- a/common/local_position_ned_cov.go
+++ b/common/local_position_ned_cov.go
@@ -174,7 +174,7 @@ func (m *LocalPositionNedCov) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/local_position_ned_system_global_offset.go b/common/local_position_ned_system_global_offset.go
index bda8bb7..ae613db 100644
--- a/common/local_position_ned_system_global_offset.go
+++ b/common/local_position_ned_system_global_offset.go
@@ -154,7 +154,7 @@ func (m *LocalPositionNedSystemGlobalOffset) Read(frame mavlink2.Frame) (err err
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_data.go b/common/log_data.go
index 42489ef..f6eaf55 100644
--- a/common/log_data.go
+++ b/common/log_data.go
@@ -142,7 +142,7 @@ func (m *LogData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_entry.go b/common/log_entry.go
index 7d3ce26..5ce8297 100644
--- a/common/log_entry.go
+++ b/common/log_entry.go
@@ -146,7 +146,7 @@ func (m *LogEntry) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_erase.go b/common/log_erase.go
index ebfb672..0ac75a4 100644
--- a/common/log_erase.go
+++ b/common/log_erase.go
@@ -134,7 +134,7 @@ func (m *LogErase) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_request_data.go b/common/log_request_data.go
index 8c6edac..95483d4 100644
--- a/common/log_request_data.go
+++ b/common/log_request_data.go
@@ -146,7 +146,7 @@ func (m *LogRequestData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_request_end.go b/common/log_request_end.go
index 365fd33..85e0847 100644
--- a/common/log_request_end.go
+++ b/common/log_request_end.go
@@ -134,7 +134,7 @@ func (m *LogRequestEnd) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_request_list.go b/common/log_request_list.go
index ae365ee..66d2397 100644
--- a/common/log_request_list.go
+++ b/common/log_request_list.go
@@ -142,7 +142,7 @@ func (m *LogRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/logging_ack.go b/common/logging_ack.go
index 7b5bb22..fbe69fd 100644
--- a/common/logging_ack.go
+++ b/common/logging_ack.go
@@ -138,7 +138,7 @@ func (m *LoggingAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/logging_data.go b/common/logging_data.go
index 27f1b48..7fc2d43 100644
--- a/common/logging_data.go
+++ b/common/logging_data.go
@@ -150,7 +150,7 @@ func (m *LoggingData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/logging_data_acked.go b/common/logging_data_acked.go
index c86a9b5..9fd3403 100644
--- a/common/logging_data_acked.go
+++ b/common/logging_data_acked.go
@@ -150,7 +150,7 @@ func (m *LoggingDataAcked) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/manual_control.go b/common/manual_control.go
index 8d6f947..99c9dff 100644
--- a/common/manual_control.go
+++ b/common/manual_control.go
@@ -150,7 +150,7 @@ func (m *ManualControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/manual_setpoint.go b/common/manual_setpoint.go
index 2ba52a4..44db92a 100644
--- a/common/manual_setpoint.go
+++ b/common/manual_setpoint.go
@@ -154,7 +154,7 @@ func (m *ManualSetpoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/memory_vect.go b/common/memory_vect.go
index fdc0a5e..9993549 100644
--- a/common/memory_vect.go
+++ b/common/memory_vect.go
@@ -142,7 +142,7 @@ func (m *MemoryVect) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/message_interval.go b/common/message_interval.go
index 8de5601..53afdac 100644
--- a/common/message_interval.go
+++ b/common/message_interval.go
@@ -134,7 +134,7 @@ func (m *MessageInterval) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_ack.go b/common/mission_ack.go
index 3d580fb..c99093b 100644
--- a/common/mission_ack.go
+++ b/common/mission_ack.go
@@ -159,7 +159,7 @@ func (m *MissionAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_changed.go b/common/mission_changed.go
index 9504c9a..2119283 100644
--- a/common/mission_changed.go
+++ b/common/mission_changed.go
@@ -146,7 +146,7 @@ func (m *MissionChanged) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_clear_all.go b/common/mission_clear_all.go
index 257f5c3..275d6c2 100644
--- a/common/mission_clear_all.go
+++ b/common/mission_clear_all.go
@@ -154,7 +154,7 @@ func (m *MissionClearAll) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_count.go b/common/mission_count.go
index b005ad7..b519a42 100644
--- a/common/mission_count.go
+++ b/common/mission_count.go
@@ -159,7 +159,7 @@ func (m *MissionCount) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_current.go b/common/mission_current.go
index 61e2f95..202ef57 100644
--- a/common/mission_current.go
+++ b/common/mission_current.go
@@ -130,7 +130,7 @@ func (m *MissionCurrent) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_item.go b/common/mission_item.go
index c5b0268..74e82eb 100644
--- a/common/mission_item.go
+++ b/common/mission_item.go
@@ -215,7 +215,7 @@ func (m *MissionItem) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_item_int.go b/common/mission_item_int.go
index eb1a9ff..3da8e7c 100644
--- a/common/mission_item_int.go
+++ b/common/mission_item_int.go
@@ -215,7 +215,7 @@ func (m *MissionItemInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_item_reached.go b/common/mission_item_reached.go
index fd14811..c1c6aa2 100644
--- a/common/mission_item_reached.go
+++ b/common/mission_item_reached.go
@@ -130,7 +130,7 @@ func (m *MissionItemReached) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_request.go b/common/mission_request.go
index 8e72399..43e485d 100644
--- a/common/mission_request.go
+++ b/common/mission_request.go
@@ -159,7 +159,7 @@ func (m *MissionRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_request_int.go b/common/mission_request_int.go
index 5ddf874..7976a0a 100644
--- a/common/mission_request_int.go
+++ b/common/mission_request_int.go
@@ -159,7 +159,7 @@ func (m *MissionRequestInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_request_list.go b/common/mission_request_list.go
index 185fa01..95ca1d8 100644
--- a/common/mission_request_list.go
+++ b/common/mission_request_list.go
@@ -154,7 +154,7 @@ func (m *MissionRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_request_partial_list.go b/common/mission_request_partial_list.go
index 2ce3936..a16f440 100644
--- a/common/mission_request_partial_list.go
+++ b/common/mission_request_partial_list.go
@@ -164,7 +164,7 @@ func (m *MissionRequestPartialList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_set_current.go b/common/mission_set_current.go
index 02241e3..9b251f5 100644
--- a/common/mission_set_current.go
+++ b/common/mission_set_current.go
@@ -138,7 +138,7 @@ func (m *MissionSetCurrent) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_write_partial_list.go b/common/mission_write_partial_list.go
index eedd9b5..4c8beb7 100644
--- a/common/mission_write_partial_list.go
+++ b/common/mission_write_partial_list.go
@@ -164,7 +164,7 @@ func (m *MissionWritePartialList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mount_orientation.go b/common/mount_orientation.go
index d9f1ccb..cacc426 100644
--- a/common/mount_orientation.go
+++ b/common/mount_orientation.go
@@ -164,7 +164,7 @@ func (m *MountOrientation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/named_value_float.go b/common/named_value_float.go
index 5eb9d62..32c30ac 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -159,7 +159,7 @@ func (m *NamedValueFloat) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/named_value_int.go b/common/named_value_int.go
index 4de1246..a5e43e1 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -159,7 +159,7 @@ func (m *NamedValueInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/nav_controller_output.go b/common/nav_controller_output.go
index 1493b26..a1587c7 100644
--- a/common/nav_controller_output.go
+++ b/common/nav_controller_output.go
@@ -158,7 +158,7 @@ func (m *NAVControllerOutput) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/obstacle_distance.go b/common/obstacle_distance.go
index 98b2177..87cefba 100644
--- a/common/obstacle_distance.go
+++ b/common/obstacle_distance.go
@@ -182,7 +182,7 @@ func (m *ObstacleDistance) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/odometry.go b/common/odometry.go
index d549390..a40df61 100644
--- a/common/odometry.go
+++ b/common/odometry.go
@@ -223,7 +223,7 @@ func (m *Odometry) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/onboard_computer_status.go b/common/onboard_computer_status.go
index 5907227..50aeecf 100644
--- a/common/onboard_computer_status.go
+++ b/common/onboard_computer_status.go
@@ -206,7 +206,7 @@ func (m *OnboardComputerStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_authentication.go b/common/open_drone_id_authentication.go
index c37ef6c..aeaeabd 100644
--- a/common/open_drone_id_authentication.go
+++ b/common/open_drone_id_authentication.go
@@ -150,7 +150,7 @@ func (m *OpenDroneIDAuthentication) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_basic_id.go b/common/open_drone_id_basic_id.go
index ea47804..1a0ba46 100644
--- a/common/open_drone_id_basic_id.go
+++ b/common/open_drone_id_basic_id.go
@@ -138,7 +138,7 @@ func (m *OpenDroneIDBasicID) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_location.go b/common/open_drone_id_location.go
index fcdf175..d70aaa2 100644
--- a/common/open_drone_id_location.go
+++ b/common/open_drone_id_location.go
@@ -190,7 +190,7 @@ func (m *OpenDroneIDLocation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_message_pack.go b/common/open_drone_id_message_pack.go
index da07078..79004ec 100644
--- a/common/open_drone_id_message_pack.go
+++ b/common/open_drone_id_message_pack.go
@@ -138,7 +138,7 @@ func (m *OpenDroneIDMessagePack) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 41a0e06..f178dbb 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -155,7 +155,7 @@ func (m *OpenDroneIDOperatorID) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 2146aea..8a75cbe 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -155,7 +155,7 @@ func (m *OpenDroneIDSelfID) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_system.go b/common/open_drone_id_system.go
index d193ac8..4461da1 100644
--- a/common/open_drone_id_system.go
+++ b/common/open_drone_id_system.go
@@ -154,7 +154,7 @@ func (m *OpenDroneIDSystem) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/optical_flow.go b/common/optical_flow.go
index 0c8f444..3657c99 100644
--- a/common/optical_flow.go
+++ b/common/optical_flow.go
@@ -188,7 +188,7 @@ func (m *OpticalFlow) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/optical_flow_rad.go b/common/optical_flow_rad.go
index 36aaca5..8c5294c 100644
--- a/common/optical_flow_rad.go
+++ b/common/optical_flow_rad.go
@@ -174,7 +174,7 @@ func (m *OpticalFlowRad) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/orbit_execution_status.go b/common/orbit_execution_status.go
index 27d1d67..f8cd494 100644
--- a/common/orbit_execution_status.go
+++ b/common/orbit_execution_status.go
@@ -150,7 +150,7 @@ func (m *OrbitExecutionStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 1f849a0..eaec6f0 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -183,7 +183,7 @@ func (m *ParamExtAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_request_list.go b/common/param_ext_request_list.go
index c43a4da..a970771 100644
--- a/common/param_ext_request_list.go
+++ b/common/param_ext_request_list.go
@@ -134,7 +134,7 @@ func (m *ParamExtRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index 903ca11..be2abdc 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -163,7 +163,7 @@ func (m *ParamExtRequestRead) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 74fce6a..3f5200e 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -187,7 +187,7 @@ func (m *ParamExtSet) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 365ea67..246d116 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -187,7 +187,7 @@ func (m *ParamExtValue) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 1d699be..41738d1 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -183,7 +183,7 @@ func (m *ParamMapRC) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_request_list.go b/common/param_request_list.go
index cf1632b..e749bbc 100644
--- a/common/param_request_list.go
+++ b/common/param_request_list.go
@@ -134,7 +134,7 @@ func (m *ParamRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 2a4abc9..d015ffa 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -163,7 +163,7 @@ func (m *ParamRequestRead) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_set.go b/common/param_set.go
index 5a29857..53d51d0 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -167,7 +167,7 @@ func (m *ParamSet) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_value.go b/common/param_value.go
index 8664315..3ff2703 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -167,7 +167,7 @@ func (m *ParamValue) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/ping.go b/common/ping.go
index 30cc58e..1baed4c 100644
--- a/common/ping.go
+++ b/common/ping.go
@@ -142,7 +142,7 @@ func (m *Ping) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/play_tune.go b/common/play_tune.go
index b365da0..bbe453e 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -200,7 +200,7 @@ func (m *PlayTune) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index cd1f10c..8cf2fc2 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -163,7 +163,7 @@ func (m *PlayTuneV2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/position_target_global_int.go b/common/position_target_global_int.go
index a3377ec..7312572 100644
--- a/common/position_target_global_int.go
+++ b/common/position_target_global_int.go
@@ -182,7 +182,7 @@ func (m *PositionTargetGlobalInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/position_target_local_ned.go b/common/position_target_local_ned.go
index a1b8a36..4188819 100644
--- a/common/position_target_local_ned.go
+++ b/common/position_target_local_ned.go
@@ -182,7 +182,7 @@ func (m *PositionTargetLocalNed) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/power_status.go b/common/power_status.go
index 6256916..8d33bda 100644
--- a/common/power_status.go
+++ b/common/power_status.go
@@ -138,7 +138,7 @@ func (m *PowerStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/protocol_version.go b/common/protocol_version.go
index 059c106..ad874d1 100644
--- a/common/protocol_version.go
+++ b/common/protocol_version.go
@@ -146,7 +146,7 @@ func (m *ProtocolVersion) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/radio_status.go b/common/radio_status.go
index 2e92b45..134c0af 100644
--- a/common/radio_status.go
+++ b/common/radio_status.go
@@ -154,7 +154,7 @@ func (m *RadioStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/raw_imu.go b/common/raw_imu.go
index f8d272c..9faa40f 100644
--- a/common/raw_imu.go
+++ b/common/raw_imu.go
@@ -198,7 +198,7 @@ func (m *RawIMU) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/raw_pressure.go b/common/raw_pressure.go
index 9f34bee..1fbca4b 100644
--- a/common/raw_pressure.go
+++ b/common/raw_pressure.go
@@ -146,7 +146,7 @@ func (m *RawPressure) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/rc_channels.go b/common/rc_channels.go
index 7898a81..ca2a11e 100644
--- a/common/rc_channels.go
+++ b/common/rc_channels.go
@@ -210,7 +210,7 @@ func (m *RCChannels) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/rc_channels_override.go b/common/rc_channels_override.go
index d861447..0198a21 100644
--- a/common/rc_channels_override.go
+++ b/common/rc_channels_override.go
@@ -230,7 +230,7 @@ func (m *RCChannelsOverrIDe) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/rc_channels_raw.go b/common/rc_channels_raw.go
index ef45f47..f8d0ed5 100644
--- a/common/rc_channels_raw.go
+++ b/common/rc_channels_raw.go
@@ -170,7 +170,7 @@ func (m *RCChannelsRaw) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/rc_channels_scaled.go b/common/rc_channels_scaled.go
index b85731e..14edcb4 100644
--- a/common/rc_channels_scaled.go
+++ b/common/rc_channels_scaled.go
@@ -170,7 +170,7 @@ func (m *RCChannelsScaled) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/request_data_stream.go b/common/request_data_stream.go
index d000353..7eed7c7 100644
--- a/common/request_data_stream.go
+++ b/common/request_data_stream.go
@@ -146,7 +146,7 @@ func (m *RequestDataStream) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/resource_request.go b/common/resource_request.go
index 147a1c9..12ddaed 100644
--- a/common/resource_request.go
+++ b/common/resource_request.go
@@ -146,7 +146,7 @@ func (m *ResouRCeRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/safety_allowed_area.go b/common/safety_allowed_area.go
index 1bbef4d..e1b9c68 100644
--- a/common/safety_allowed_area.go
+++ b/common/safety_allowed_area.go
@@ -154,7 +154,7 @@ func (m *SafetyAllowedArea) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/safety_set_allowed_area.go b/common/safety_set_allowed_area.go
index 878d851..6062a2e 100644
--- a/common/safety_set_allowed_area.go
+++ b/common/safety_set_allowed_area.go
@@ -162,7 +162,7 @@ func (m *SafetySetAllowedArea) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_imu.go b/common/scaled_imu.go
index 3317a8e..c9db709 100644
--- a/common/scaled_imu.go
+++ b/common/scaled_imu.go
@@ -194,7 +194,7 @@ func (m *ScaledIMU) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_imu2.go b/common/scaled_imu2.go
index 4dd0070..1436b5d 100644
--- a/common/scaled_imu2.go
+++ b/common/scaled_imu2.go
@@ -194,7 +194,7 @@ func (m *ScaledIMU2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_imu3.go b/common/scaled_imu3.go
index aa1b2be..d3e9377 100644
--- a/common/scaled_imu3.go
+++ b/common/scaled_imu3.go
@@ -194,7 +194,7 @@ func (m *ScaledIMU3) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_pressure.go b/common/scaled_pressure.go
index d0f18eb..63e988f 100644
--- a/common/scaled_pressure.go
+++ b/common/scaled_pressure.go
@@ -142,7 +142,7 @@ func (m *ScaledPressure) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_pressure2.go b/common/scaled_pressure2.go
index e06714c..70424cf 100644
--- a/common/scaled_pressure2.go
+++ b/common/scaled_pressure2.go
@@ -142,7 +142,7 @@ func (m *ScaledPressure2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_pressure3.go b/common/scaled_pressure3.go
index c43092a..fc8d4d9 100644
--- a/common/scaled_pressure3.go
+++ b/common/scaled_pressure3.go
@@ -142,7 +142,7 @@ func (m *ScaledPressure3) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/serial_control.go b/common/serial_control.go
index 7973720..c181396 100644
--- a/common/serial_control.go
+++ b/common/serial_control.go
@@ -150,7 +150,7 @@ func (m *SerialControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/servo_output_raw.go b/common/servo_output_raw.go
index 6398903..5999693 100644
--- a/common/servo_output_raw.go
+++ b/common/servo_output_raw.go
@@ -222,7 +222,7 @@ func (m *ServoOutputRaw) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_actuator_control_target.go b/common/set_actuator_control_target.go
index 4ca3bfb..3da308b 100644
--- a/common/set_actuator_control_target.go
+++ b/common/set_actuator_control_target.go
@@ -146,7 +146,7 @@ func (m *SetActuatorControlTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_attitude_target.go b/common/set_attitude_target.go
index c7761b4..eef863a 100644
--- a/common/set_attitude_target.go
+++ b/common/set_attitude_target.go
@@ -162,7 +162,7 @@ func (m *SetAttitudeTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_gps_global_origin.go b/common/set_gps_global_origin.go
index 5780f6f..48ef150 100644
--- a/common/set_gps_global_origin.go
+++ b/common/set_gps_global_origin.go
@@ -164,7 +164,7 @@ func (m *SetGPSGlobalOrigin) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_home_position.go b/common/set_home_position.go
index a06abbe..b07c1d3 100644
--- a/common/set_home_position.go
+++ b/common/set_home_position.go
@@ -199,7 +199,7 @@ func (m *SetHomePosition) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_mode.go b/common/set_mode.go
index ed3eb71..2873b57 100644
--- a/common/set_mode.go
+++ b/common/set_mode.go
@@ -138,7 +138,7 @@ func (m *SetMode) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_position_target_global_int.go b/common/set_position_target_global_int.go
index 1cf77ea..dae3b69 100644
--- a/common/set_position_target_global_int.go
+++ b/common/set_position_target_global_int.go
@@ -190,7 +190,7 @@ func (m *SetPositionTargetGlobalInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_position_target_local_ned.go b/common/set_position_target_local_ned.go
index 4ababf2..cd7f61a 100644
--- a/common/set_position_target_local_ned.go
+++ b/common/set_position_target_local_ned.go
@@ -190,7 +190,7 @@ func (m *SetPositionTargetLocalNed) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/setup_signing.go b/common/setup_signing.go
index 1f583ac..80605e2 100644
--- a/common/setup_signing.go
+++ b/common/setup_signing.go
@@ -142,7 +142,7 @@ func (m *SetupSigning) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/sim_state.go b/common/sim_state.go
index 4161fd6..349e6eb 100644
--- a/common/sim_state.go
+++ b/common/sim_state.go
@@ -210,7 +210,7 @@ func (m *SimState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 8d75d5c..d60247d 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -187,7 +187,7 @@ func (m *SmartBatteryInfo) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/smart_battery_status.go b/common/smart_battery_status.go
index 6961d8d..a6f88c8 100644
--- a/common/smart_battery_status.go
+++ b/common/smart_battery_status.go
@@ -158,7 +158,7 @@ func (m *SmartBatteryStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/statustext.go b/common/statustext.go
index aae7e13..89f5df1 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -155,7 +155,7 @@ func (m *Statustext) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/statustext_long.go b/common/statustext_long.go
index ea70a5e..4a49fe8 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -155,7 +155,7 @@ func (m *StatustextLong) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/storage_information.go b/common/storage_information.go
index 7340b0c..93b8570 100644
--- a/common/storage_information.go
+++ b/common/storage_information.go
@@ -162,7 +162,7 @@ func (m *StorageInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/supported_tunes.go b/common/supported_tunes.go
index 09a50b6..f6b3d5e 100644
--- a/common/supported_tunes.go
+++ b/common/supported_tunes.go
@@ -138,7 +138,7 @@ func (m *SupportedTunes) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/sys_status.go b/common/sys_status.go
index d0f0ccd..bdb3652 100644
--- a/common/sys_status.go
+++ b/common/sys_status.go
@@ -178,7 +178,7 @@ func (m *SysStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/system_time.go b/common/system_time.go
index 30c3a05..e10903e 100644
--- a/common/system_time.go
+++ b/common/system_time.go
@@ -134,7 +134,7 @@ func (m *SystemTime) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/terrain_check.go b/common/terrain_check.go
index 3140539..0daddeb 100644
--- a/common/terrain_check.go
+++ b/common/terrain_check.go
@@ -134,7 +134,7 @@ func (m *TerrainCheck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/terrain_data.go b/common/terrain_data.go
index 8849b71..d6d64aa 100644
--- a/common/terrain_data.go
+++ b/common/terrain_data.go
@@ -146,7 +146,7 @@ func (m *TerrainData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/terrain_report.go b/common/terrain_report.go
index 1b8e89a..bf0019d 100644
--- a/common/terrain_report.go
+++ b/common/terrain_report.go
@@ -154,7 +154,7 @@ func (m *TerrainReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/terrain_request.go b/common/terrain_request.go
index cef1975..bba4327 100644
--- a/common/terrain_request.go
+++ b/common/terrain_request.go
@@ -142,7 +142,7 @@ func (m *TerrainRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/time_estimate_to_target.go b/common/time_estimate_to_target.go
index fb44bd7..0ad78f8 100644
--- a/common/time_estimate_to_target.go
+++ b/common/time_estimate_to_target.go
@@ -146,7 +146,7 @@ func (m *TimeEstimateToTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/timesync.go b/common/timesync.go
index ba31c00..05e2057 100644
--- a/common/timesync.go
+++ b/common/timesync.go
@@ -134,7 +134,7 @@ func (m *Timesync) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/trajectory_representation_bezier.go b/common/trajectory_representation_bezier.go
index d5a981c..a635987 100644
--- a/common/trajectory_representation_bezier.go
+++ b/common/trajectory_representation_bezier.go
@@ -154,7 +154,7 @@ func (m *TrajectoryRepresentationBezier) Read(frame mavlink2.Frame) (err error)
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/trajectory_representation_waypoints.go b/common/trajectory_representation_waypoints.go
index 7e1201b..71f4185 100644
--- a/common/trajectory_representation_waypoints.go
+++ b/common/trajectory_representation_waypoints.go
@@ -182,7 +182,7 @@ func (m *TrajectoryRepresentationWaypoints) Read(frame mavlink2.Frame) (err erro
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/tunnel.go b/common/tunnel.go
index f48dcff..874d7a7 100644
--- a/common/tunnel.go
+++ b/common/tunnel.go
@@ -146,7 +146,7 @@ func (m *Tunnel) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 948974c..808bf0f 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -183,7 +183,7 @@ func (m *UavcanNodeInfo) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/uavcan_node_status.go b/common/uavcan_node_status.go
index 84a01cd..1196239 100644
--- a/common/uavcan_node_status.go
+++ b/common/uavcan_node_status.go
@@ -150,7 +150,7 @@ func (m *UavcanNodeStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/utm_global_position.go b/common/utm_global_position.go
index 5b7073c..8efb1ce 100644
--- a/common/utm_global_position.go
+++ b/common/utm_global_position.go
@@ -198,7 +198,7 @@ func (m *UtmGlobalPosition) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vfr_hud.go b/common/vfr_hud.go
index b23847b..35b5faa 100644
--- a/common/vfr_hud.go
+++ b/common/vfr_hud.go
@@ -150,7 +150,7 @@ func (m *VFRHUD) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vibration.go b/common/vibration.go
index 7655d5b..c0eb389 100644
--- a/common/vibration.go
+++ b/common/vibration.go
@@ -154,7 +154,7 @@ func (m *Vibration) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vicon_position_estimate.go b/common/vicon_position_estimate.go
index 0175243..85d1ad1 100644
--- a/common/vicon_position_estimate.go
+++ b/common/vicon_position_estimate.go
@@ -179,7 +179,7 @@ func (m *ViconPositionEstimate) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index 1fbb155..2b5b82d 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -215,7 +215,7 @@ func (m *VIDeoStreamInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/video_stream_status.go b/common/video_stream_status.go
index 404bc6a..4ce3188 100644
--- a/common/video_stream_status.go
+++ b/common/video_stream_status.go
@@ -158,7 +158,7 @@ func (m *VIDeoStreamStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vision_position_estimate.go b/common/vision_position_estimate.go
index 75979c4..2eff8b6 100644
--- a/common/vision_position_estimate.go
+++ b/common/vision_position_estimate.go
@@ -183,7 +183,7 @@ func (m *VisionPositionEstimate) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vision_speed_estimate.go b/common/vision_speed_estimate.go
index 3fa0108..e5ad6a1 100644
--- a/common/vision_speed_estimate.go
+++ b/common/vision_speed_estimate.go
@@ -168,7 +168,7 @@ func (m *VisionSpeedEstimate) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/wheel_distance.go b/common/wheel_distance.go
index e2295a0..93112de 100644
--- a/common/wheel_distance.go
+++ b/common/wheel_distance.go
@@ -138,7 +138,7 @@ func (m *WheelDistance) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index c964746..60195bb 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -175,7 +175,7 @@ func (m *WifiConfigAp) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/wind_cov.go b/common/wind_cov.go
index cfb4eb1..61172a4 100644
--- a/common/wind_cov.go
+++ b/common/wind_cov.go
@@ -162,7 +162,7 @@ func (m *WindCov) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/icarous/icarous_heartbeat.go b/icarous/icarous_heartbeat.go
index c8914f2..5fac2ad 100644
--- a/icarous/icarous_heartbeat.go
+++ b/icarous/icarous_heartbeat.go
@@ -130,7 +130,7 @@ func (m *IcarousHeartbeat) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/icarous/icarous_kinematic_bands.go b/icarous/icarous_kinematic_bands.go
index 2336d40..7f35b04 100644
--- a/icarous/icarous_kinematic_bands.go
+++ b/icarous/icarous_kinematic_bands.go
@@ -190,7 +190,7 @@ func (m *IcarousKinematicBands) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/airspeeds.go b/matrixpilot/airspeeds.go
index e84613e..664d9ad 100644
--- a/matrixpilot/airspeeds.go
+++ b/matrixpilot/airspeeds.go
@@ -154,7 +154,7 @@ func (m *Airspeeds) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/altitudes.go b/matrixpilot/altitudes.go
index c05a43d..2b7a05d 100644
--- a/matrixpilot/altitudes.go
+++ b/matrixpilot/altitudes.go
@@ -154,7 +154,7 @@ func (m *Altitudes) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_buffer_function.go b/matrixpilot/flexifunction_buffer_function.go
index f68770f..722cb5b 100644
--- a/matrixpilot/flexifunction_buffer_function.go
+++ b/matrixpilot/flexifunction_buffer_function.go
@@ -154,7 +154,7 @@ func (m *FlexifunctionBufferFunction) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_buffer_function_ack.go b/matrixpilot/flexifunction_buffer_function_ack.go
index 6807806..6782932 100644
--- a/matrixpilot/flexifunction_buffer_function_ack.go
+++ b/matrixpilot/flexifunction_buffer_function_ack.go
@@ -142,7 +142,7 @@ func (m *FlexifunctionBufferFunctionAck) Read(frame mavlink2.Frame) (err error)
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_command.go b/matrixpilot/flexifunction_command.go
index f92271c..8192e8f 100644
--- a/matrixpilot/flexifunction_command.go
+++ b/matrixpilot/flexifunction_command.go
@@ -138,7 +138,7 @@ func (m *FlexifunctionCommand) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_command_ack.go b/matrixpilot/flexifunction_command_ack.go
index 7acfda8..440af78 100644
--- a/matrixpilot/flexifunction_command_ack.go
+++ b/matrixpilot/flexifunction_command_ack.go
@@ -134,7 +134,7 @@ func (m *FlexifunctionCommandAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_directory.go b/matrixpilot/flexifunction_directory.go
index d30afb3..5d9dc98 100644
--- a/matrixpilot/flexifunction_directory.go
+++ b/matrixpilot/flexifunction_directory.go
@@ -150,7 +150,7 @@ func (m *FlexifunctionDirectory) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_directory_ack.go b/matrixpilot/flexifunction_directory_ack.go
index 4faf23b..1705e03 100644
--- a/matrixpilot/flexifunction_directory_ack.go
+++ b/matrixpilot/flexifunction_directory_ack.go
@@ -150,7 +150,7 @@ func (m *FlexifunctionDirectoryAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_read_req.go b/matrixpilot/flexifunction_read_req.go
index 7168c83..474d3f0 100644
--- a/matrixpilot/flexifunction_read_req.go
+++ b/matrixpilot/flexifunction_read_req.go
@@ -142,7 +142,7 @@ func (m *FlexifunctionReadReq) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_set.go b/matrixpilot/flexifunction_set.go
index 6ad3421..f105c42 100644
--- a/matrixpilot/flexifunction_set.go
+++ b/matrixpilot/flexifunction_set.go
@@ -134,7 +134,7 @@ func (m *FlexifunctionSet) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f13.go b/matrixpilot/serial_udb_extra_f13.go
index 02586c6..ae373b0 100644
--- a/matrixpilot/serial_udb_extra_f13.go
+++ b/matrixpilot/serial_udb_extra_f13.go
@@ -142,7 +142,7 @@ func (m *SerialUdbExtraF13) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f14.go b/matrixpilot/serial_udb_extra_f14.go
index f000562..26c00ce 100644
--- a/matrixpilot/serial_udb_extra_f14.go
+++ b/matrixpilot/serial_udb_extra_f14.go
@@ -170,7 +170,7 @@ func (m *SerialUdbExtraF14) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f15.go b/matrixpilot/serial_udb_extra_f15.go
index be0a9b4..c1c3bc2 100644
--- a/matrixpilot/serial_udb_extra_f15.go
+++ b/matrixpilot/serial_udb_extra_f15.go
@@ -134,7 +134,7 @@ func (m *SerialUdbExtraF15) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f16.go b/matrixpilot/serial_udb_extra_f16.go
index 77ee7cd..12ac5ff 100644
--- a/matrixpilot/serial_udb_extra_f16.go
+++ b/matrixpilot/serial_udb_extra_f16.go
@@ -134,7 +134,7 @@ func (m *SerialUdbExtraF16) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f17.go b/matrixpilot/serial_udb_extra_f17.go
index 3b20478..c1f1e39 100644
--- a/matrixpilot/serial_udb_extra_f17.go
+++ b/matrixpilot/serial_udb_extra_f17.go
@@ -138,7 +138,7 @@ func (m *SerialUdbExtraF17) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f18.go b/matrixpilot/serial_udb_extra_f18.go
index 7edc66b..d344c41 100644
--- a/matrixpilot/serial_udb_extra_f18.go
+++ b/matrixpilot/serial_udb_extra_f18.go
@@ -146,7 +146,7 @@ func (m *SerialUdbExtraF18) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f19.go b/matrixpilot/serial_udb_extra_f19.go
index f7d422e..41b33ce 100644
--- a/matrixpilot/serial_udb_extra_f19.go
+++ b/matrixpilot/serial_udb_extra_f19.go
@@ -158,7 +158,7 @@ func (m *SerialUdbExtraF19) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f20.go b/matrixpilot/serial_udb_extra_f20.go
index fd27e73..25b187f 100644
--- a/matrixpilot/serial_udb_extra_f20.go
+++ b/matrixpilot/serial_udb_extra_f20.go
@@ -178,7 +178,7 @@ func (m *SerialUdbExtraF20) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f21.go b/matrixpilot/serial_udb_extra_f21.go
index b339557..a4bbfe3 100644
--- a/matrixpilot/serial_udb_extra_f21.go
+++ b/matrixpilot/serial_udb_extra_f21.go
@@ -150,7 +150,7 @@ func (m *SerialUdbExtraF21) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f22.go b/matrixpilot/serial_udb_extra_f22.go
index 8f461a0..10d47dd 100644
--- a/matrixpilot/serial_udb_extra_f22.go
+++ b/matrixpilot/serial_udb_extra_f22.go
@@ -150,7 +150,7 @@ func (m *SerialUdbExtraF22) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f2_a.go b/matrixpilot/serial_udb_extra_f2_a.go
index 82ccac0..a880068 100644
--- a/matrixpilot/serial_udb_extra_f2_a.go
+++ b/matrixpilot/serial_udb_extra_f2_a.go
@@ -234,7 +234,7 @@ func (m *SerialUdbExtraF2A) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f2_b.go b/matrixpilot/serial_udb_extra_f2_b.go
index af455a6..36afa5a 100644
--- a/matrixpilot/serial_udb_extra_f2_b.go
+++ b/matrixpilot/serial_udb_extra_f2_b.go
@@ -326,7 +326,7 @@ func (m *SerialUdbExtraF2B) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f4.go b/matrixpilot/serial_udb_extra_f4.go
index 40a0f87..5bd2c2c 100644
--- a/matrixpilot/serial_udb_extra_f4.go
+++ b/matrixpilot/serial_udb_extra_f4.go
@@ -166,7 +166,7 @@ func (m *SerialUdbExtraF4) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f5.go b/matrixpilot/serial_udb_extra_f5.go
index e3f8006..f90aa1d 100644
--- a/matrixpilot/serial_udb_extra_f5.go
+++ b/matrixpilot/serial_udb_extra_f5.go
@@ -142,7 +142,7 @@ func (m *SerialUdbExtraF5) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f6.go b/matrixpilot/serial_udb_extra_f6.go
index 839e84b..d3eaafb 100644
--- a/matrixpilot/serial_udb_extra_f6.go
+++ b/matrixpilot/serial_udb_extra_f6.go
@@ -146,7 +146,7 @@ func (m *SerialUdbExtraF6) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f7.go b/matrixpilot/serial_udb_extra_f7.go
index deed8bc..ed2d9c1 100644
--- a/matrixpilot/serial_udb_extra_f7.go
+++ b/matrixpilot/serial_udb_extra_f7.go
@@ -150,7 +150,7 @@ func (m *SerialUdbExtraF7) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f8.go b/matrixpilot/serial_udb_extra_f8.go
index 930ea23..4c1414b 100644
--- a/matrixpilot/serial_udb_extra_f8.go
+++ b/matrixpilot/serial_udb_extra_f8.go
@@ -154,7 +154,7 @@ func (m *SerialUdbExtraF8) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_count.go b/paparazzi/script_count.go
index 8346f2a..2fef92a 100644
--- a/paparazzi/script_count.go
+++ b/paparazzi/script_count.go
@@ -138,7 +138,7 @@ func (m *ScriptCount) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_current.go b/paparazzi/script_current.go
index 7e20e56..f3b1c9c 100644
--- a/paparazzi/script_current.go
+++ b/paparazzi/script_current.go
@@ -130,7 +130,7 @@ func (m *ScriptCurrent) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index 8a384d1..dc0e6cf 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -163,7 +163,7 @@ func (m *ScriptItem) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_request.go b/paparazzi/script_request.go
index 8e9c90c..ecb2faf 100644
--- a/paparazzi/script_request.go
+++ b/paparazzi/script_request.go
@@ -138,7 +138,7 @@ func (m *ScriptRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_request_list.go b/paparazzi/script_request_list.go
index 826a4d9..d759b9f 100644
--- a/paparazzi/script_request_list.go
+++ b/paparazzi/script_request_list.go
@@ -134,7 +134,7 @@ func (m *ScriptRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/boot.go b/slugs/boot.go
index 0f6e5f8..d222121 100644
--- a/slugs/boot.go
+++ b/slugs/boot.go
@@ -130,7 +130,7 @@ func (m *Boot) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/control_surface.go b/slugs/control_surface.go
index 8dc26a4..2d5206a 100644
--- a/slugs/control_surface.go
+++ b/slugs/control_surface.go
@@ -142,7 +142,7 @@ func (m *ControlSurface) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/cpu_load.go b/slugs/cpu_load.go
index 178a929..59bee2c 100644
--- a/slugs/cpu_load.go
+++ b/slugs/cpu_load.go
@@ -138,7 +138,7 @@ func (m *CpuLoad) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/ctrl_srfc_pt.go b/slugs/ctrl_srfc_pt.go
index 59689bd..4b3e490 100644
--- a/slugs/ctrl_srfc_pt.go
+++ b/slugs/ctrl_srfc_pt.go
@@ -134,7 +134,7 @@ func (m *CtrlSrfcPt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/data_log.go b/slugs/data_log.go
index e042823..b6e20f4 100644
--- a/slugs/data_log.go
+++ b/slugs/data_log.go
@@ -150,7 +150,7 @@ func (m *DataLog) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/diagnostic.go b/slugs/diagnostic.go
index 64e1d12..5d35e81 100644
--- a/slugs/diagnostic.go
+++ b/slugs/diagnostic.go
@@ -150,7 +150,7 @@ func (m *Diagnostic) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/gps_date_time.go b/slugs/gps_date_time.go
index 6bc8dae..c7df318 100644
--- a/slugs/gps_date_time.go
+++ b/slugs/gps_date_time.go
@@ -174,7 +174,7 @@ func (m *GPSDateTime) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/isr_location.go b/slugs/isr_location.go
index 431e732..a7d4d10 100644
--- a/slugs/isr_location.go
+++ b/slugs/isr_location.go
@@ -154,7 +154,7 @@ func (m *IsrLocation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/mid_lvl_cmds.go b/slugs/mid_lvl_cmds.go
index 306877d..d422945 100644
--- a/slugs/mid_lvl_cmds.go
+++ b/slugs/mid_lvl_cmds.go
@@ -142,7 +142,7 @@ func (m *MIDLvlCmds) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/novatel_diag.go b/slugs/novatel_diag.go
index 998a5c6..0d0fd44 100644
--- a/slugs/novatel_diag.go
+++ b/slugs/novatel_diag.go
@@ -154,7 +154,7 @@ func (m *NovatelDiag) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/ptz_status.go b/slugs/ptz_status.go
index 1e5348a..e73224f 100644
--- a/slugs/ptz_status.go
+++ b/slugs/ptz_status.go
@@ -138,7 +138,7 @@ func (m *PtzStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/sensor_bias.go b/slugs/sensor_bias.go
index 00ecd2e..72d3471 100644
--- a/slugs/sensor_bias.go
+++ b/slugs/sensor_bias.go
@@ -150,7 +150,7 @@ func (m *SensorBias) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/sensor_diag.go b/slugs/sensor_diag.go
index 8d4b7c3..fd4effd 100644
--- a/slugs/sensor_diag.go
+++ b/slugs/sensor_diag.go
@@ -142,7 +142,7 @@ func (m *SensorDiag) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/slugs_camera_order.go b/slugs/slugs_camera_order.go
index 8c67f31..e84ab70 100644
--- a/slugs/slugs_camera_order.go
+++ b/slugs/slugs_camera_order.go
@@ -146,7 +146,7 @@ func (m *SlugsCameraOrder) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/slugs_configuration_camera.go b/slugs/slugs_configuration_camera.go
index 1064e2c..f8593d4 100644
--- a/slugs/slugs_configuration_camera.go
+++ b/slugs/slugs_configuration_camera.go
@@ -138,7 +138,7 @@ func (m *SlugsConfigurationCamera) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/slugs_mobile_location.go b/slugs/slugs_mobile_location.go
index e5c20b2..0971bf8 100644
--- a/slugs/slugs_mobile_location.go
+++ b/slugs/slugs_mobile_location.go
@@ -138,7 +138,7 @@ func (m *SlugsMobileLocation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/slugs_navigation.go b/slugs/slugs_navigation.go
index e0f5514..f369d77 100644
--- a/slugs/slugs_navigation.go
+++ b/slugs/slugs_navigation.go
@@ -166,7 +166,7 @@ func (m *SlugsNAVigation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/status_gps.go b/slugs/status_gps.go
index 665d192..13d5441 100644
--- a/slugs/status_gps.go
+++ b/slugs/status_gps.go
@@ -154,7 +154,7 @@ func (m *StatusGPS) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/uav_status.go b/slugs/uav_status.go
index fc37b4b..fdd38b4 100644
--- a/slugs/uav_status.go
+++ b/slugs/uav_status.go
@@ -150,7 +150,7 @@ func (m *UavStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/volt_sensor.go b/slugs/volt_sensor.go
index 27f30a5..eba7bd7 100644
--- a/slugs/volt_sensor.go
+++ b/slugs/volt_sensor.go
@@ -138,7 +138,7 @@ func (m *VoltSensor) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 4f6ecaf..b61adb3 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -179,7 +179,7 @@ func (m *UavionixAdsbOutCfg) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/uAvionix/uavionix_adsb_out_dynamic.go b/uAvionix/uavionix_adsb_out_dynamic.go
index 0ab2bee..8dc385f 100644
--- a/uAvionix/uavionix_adsb_out_dynamic.go
+++ b/uAvionix/uavionix_adsb_out_dynamic.go
@@ -190,7 +190,7 @@ func (m *UavionixAdsbOutDynamic) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/uAvionix/uavionix_adsb_transceiver_health_report.go b/uAvionix/uavionix_adsb_transceiver_health_report.go
index 8bf0166..beb282e 100644
--- a/uAvionix/uavionix_adsb_transceiver_health_report.go
+++ b/uAvionix/uavionix_adsb_transceiver_health_report.go
@@ -130,7 +130,7 @@ func (m *UavionixAdsbTransceiverHealthReport) Read(frame mavlink2.Frame) (err er
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ualberta/nav_filter_bias.go b/ualberta/nav_filter_bias.go
index 6c9a1e8..5b0c731 100644
--- a/ualberta/nav_filter_bias.go
+++ b/ualberta/nav_filter_bias.go
@@ -154,7 +154,7 @@ func (m *NAVFilterBias) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ualberta/radio_calibration.go b/ualberta/radio_calibration.go
index b4aedd9..38dfa59 100644
--- a/ualberta/radio_calibration.go
+++ b/ualberta/radio_calibration.go
@@ -150,7 +150,7 @@ func (m *RadioCalibration) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ualberta/ualberta_sys_status.go b/ualberta/ualberta_sys_status.go
index 7e5c215..56e5917 100644
--- a/ualberta/ualberta_sys_status.go
+++ b/ualberta/ualberta_sys_status.go
@@ -138,7 +138,7 @@ func (m *UalbertaSysStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
-- 
2.43.0

