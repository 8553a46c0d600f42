From 4c41f19c718b858b7449e5081fa1ff7c4c0dec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:49 +0000
Subject: [PATCH 001/103] fix: close the broker connection after any failed
 exchange

A timeout is wrapped, so os.IsTimeout did not see it and the connection
stayed open: the late answer was then returned to the next request.
---
 broker.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/broker.go b/broker.go
index 4f44682..03a4c14 100644
--- a/broker.go
+++ b/broker.go
@@ -11,7 +11,6 @@ import (
 	"net"
 	"os"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -244,19 +243,16 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
-	defer func() {
-		if os.IsTimeout(err) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
-			broker.Close()
-		}
-	}()
-
 	rp, err := broker.Request(r)
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 
 	resp, err = rp.ReadAndParse()
 	if err != nil {
+		// the response may still be on its way, the next request must not read it
+		broker.Close()
 		return nil, err
 	}
 	return resp, resp.Error()
-- 
2.43.0


From 27cf69f88b148b866995f2cfb7d0f8c53afdb10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:54 +0000
Subject: [PATCH 002/103] fix: a malformed response is an error, not a panic

---
 response.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/response.go b/response.go
index df43f67..51409eb 100644
--- a/response.go
+++ b/response.go
@@ -60,7 +60,10 @@ func (p defaultReadParser) Read() ([]byte, error) {
 		}
 		l += length
 	}
-	responseLength := int(binary.BigEndian.Uint32(responseLengthBuf))
+	responseLength := int(int32(binary.BigEndian.Uint32(responseLengthBuf)))
+	if responseLength < 4 {
+		return nil, fmt.Errorf("invalid response length %d", responseLength)
+	}
 	resp := make([]byte, 4+responseLength)
 
 	readLength := 0
@@ -86,7 +89,14 @@ func (p defaultReadParser) Read() ([]byte, error) {
 	return resp, nil
 }
 
-func (p defaultReadParser) Parse(data []byte) (Response, error) {
+func (p defaultReadParser) Parse(data []byte) (resp Response, err error) {
+	// the decoders index into data, a response shorter than its content says must not crash the process
+	defer func() {
+		if e := recover(); e != nil {
+			resp, err = nil, fmt.Errorf("malformed response of %d bytes: %v", len(data), e)
+		}
+	}()
+
 	switch p.api {
 	case API_Heartbeat:
 		return NewHeartbeatResponse(data)
-- 
2.43.0


From 5cf133ae94178182a48b532e7bca6d98a73841b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:01 +0000
Subject: [PATCH 003/103] fix: AlterConfigs response with a null message or
 several resources

---
 alter_config_response.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 69d3167..b5464f5 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -32,10 +32,12 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	l := int(binary.BigEndian.Uint16(payload[offset:]))
+	l := int(int16(binary.BigEndian.Uint16(payload[offset:])))
 	offset += 2
-	r.ErrorMessage = string(payload[offset : offset+l])
-	offset += l
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
+	}
 
 	r.ResourceType = payload[offset]
 	offset++
@@ -44,7 +46,7 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-	return
+	return offset
 }
 
 func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error) {
-- 
2.43.0


From 21a2eeb25cbcc96e7d59a0312e7575b97ae5c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 004/103] fix: IncrementalAlterConfigs response with several
 resources

---
 incremental_alter_config_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index c78f3c0..2defbb8 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -50,7 +50,7 @@ func decodeToIncrementalAlterConfigsResponseResource(payload []byte, version uin
 		r.ResourceName = string(payload[offset : offset+int(l)])
 		offset += int(l)
 	}
-	return
+	return r, offset
 }
 
 // NewIncrementalAlterConfigsResponse create a new IncrementalAlterConfigsResponse.
-- 
2.43.0


From c45c1f95fd56fbb4975986755c8f801c1d2d3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:06 +0000
Subject: [PATCH 005/103] fix: CreateAcls response starts with the throttle
 time

---
 create_acls_response.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/create_acls_response.go b/create_acls_response.go
index e7752fb..a27eb60 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -7,8 +7,9 @@ import (
 
 type CreateAclsResponse struct {
 	ResponseHeader
-	Results      []AclCreationResult
-	TaggedFields TaggedFields
+	ThrottleTimeMs int32
+	Results        []AclCreationResult
+	TaggedFields   TaggedFields
 }
 
 type AclCreationResult struct {
@@ -42,6 +43,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_CreateAcls, version)
 	offset += o
 
+	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+	offset += 4
+
 	var resultCount int32
 	if r.ResponseHeader.IsFlexible() {
 		resultCount, o = compactArrayLength(payload[offset:])
@@ -85,6 +89,7 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 
 func (r *CreateAclsResponse) length() (n int) {
 	n += r.ResponseHeader.length()
+	n += 4 // throttle time
 	n += 4 // results count
 	for _, result := range r.Results {
 		n += 2 // error code
@@ -109,6 +114,8 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 	}()
 
 	offset += r.ResponseHeader.EncodeTo(payload[offset:])
+	binary.BigEndian.PutUint32(payload[offset:], uint32(r.ThrottleTimeMs))
+	offset += 4
 	if r.ResponseHeader.IsFlexible() {
 		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Results)))
 	} else {
-- 
2.43.0


From 6be85fac5ae7074353884e1011d3f5c37e86cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:09 +0000
Subject: [PATCH 006/103] fix: DescribeConfigs response with a message but no
 error

---
 describe_configs_response.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/describe_configs_response.go b/describe_configs_response.go
index dbd4db5..36502e7 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -15,7 +15,7 @@ type DescribeConfigsResponse struct {
 func (r DescribeConfigsResponse) Error() error {
 	for _, resource := range r.Resources {
 		if resource.ErrorCode != 0 {
-			return fmt.Errorf("describe configs failed: %s", KafkaError(resource.ErrorCode))
+			return fmt.Errorf("describe configs failed: %w", KafkaError(resource.ErrorCode))
 		}
 	}
 	return nil
@@ -35,15 +35,11 @@ func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsR
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	if r.ErrorCode != 0 {
-		l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
-		offset += 2
-		if l > 0 {
-			r.ErrorMessage = string(payload[offset : offset+l])
-			offset += l
-		}
-	} else {
-		offset += 2
+	l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
+	offset += 2
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
 	}
 
 	r.ResourceType = uint8(payload[offset])
-- 
2.43.0


From 31b435f60aa2c4f3dcc137d044a02e468f1e9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:11 +0000
Subject: [PATCH 007/103] fix: DescribeGroups lost the member metadata

---
 describe_groups_response.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index 3398e07..d062b7d 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -109,6 +109,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
+			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
-- 
2.43.0


From 8d5a7e5f6e214d2cde347d2e12fbea7609f35634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 008/103] fix: ListPartitionReassignments response has a
 flexible header

---
 list_partition_reassignments_response.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index de1e77a..02ddebf 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -37,7 +37,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return
@@ -85,7 +85,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 			offset += 4
 		}
 	}
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 	return
 }
@@ -105,8 +105,9 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	}
 	offset += 4
 
-	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
-	offset += 4
+	header, o := DecodeResponseHeader(payload[offset:], API_ListPartitionReassignments, version)
+	offset += o
+	r.CorrelationID = header.CorrelationID
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
@@ -114,9 +115,6 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	offset++ // I do not know what this byte means, always 0x01 , additonal byte after ErrorMessage and before Topics
-
-	var o int
 	r.ErrorMessage, o = compactNullableString(payload[offset:])
 	offset += o
 
@@ -132,7 +130,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return r, err
-- 
2.43.0


From b205304372f7b1f8251fe153e042c5f714feb012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:17 +0000
Subject: [PATCH 009/103] fix: Metadata response with a null cluster id,
 cluster id shifted by two bytes

---
 metadata_response.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadata_response.go b/metadata_response.go
index 46b7e8a..976ce73 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -176,9 +176,11 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	if version >= 4 {
-		l := int(binary.BigEndian.Uint16(payload[offset:]))
-		r.ClusterID = string(payload[offset : offset+l])
-		offset += 2 + l
+		clusterID, o := nullableString(payload[offset:])
+		if clusterID != nil {
+			r.ClusterID = *clusterID
+		}
+		offset += o
 	}
 	// ControllerID
 	r.ControllerID = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From 028d5b15fc8caa686223843105fc1bacd8eb4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:19 +0000
Subject: [PATCH 010/103] fix: ListOffsets response v1 has no throttle time

---
 offset_response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/offset_response.go b/offset_response.go
index bf92db7..0c5bc39 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -52,8 +52,9 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	if version > 0 {
+	if version >= 2 {
 		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
 	}
 
 	topicLenght := int(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From b24115ccc90021aabf8c0e79d6c7fed152efb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:22 +0000
Subject: [PATCH 011/103] fix: OffsetFetch response with null metadata

---
 offset_fetch_response.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index ba09b09..e554243 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -72,10 +72,11 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 			offset += 4
 			p.Offset = int64(binary.BigEndian.Uint64(payload[offset:]))
 			offset += 8
-			l = int(binary.BigEndian.Uint16(payload[offset:]))
-			offset += 2
-			p.Metadata = string(payload[offset : offset+l])
-			offset += l
+			metadata, o := nullableString(payload[offset:])
+			if metadata != nil {
+				p.Metadata = *metadata
+			}
+			offset += o
 			p.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 			offset += 2
 
-- 
2.43.0


From 5757b543a22639f6666fc068025e703e61ebb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:25 +0000
Subject: [PATCH 012/103] fix: DescribeAcls response v1 has no tagged fields in
 its header

---
 desscribe_acls_response.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index e8a9c3d..76acf7e 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -48,7 +48,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	response.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	if version >= 1 {
+	if version >= 2 {
 		_, o = DecodeTaggedFields(payload[offset:])
 		offset += o
 	}
@@ -181,7 +181,7 @@ func (r *DescribeAclsResponse) Encode(version uint16) (rst []byte, err error) {
 	binary.Write(buf, binary.BigEndian, uint32(0))
 
 	binary.Write(buf, binary.BigEndian, r.CorrelationID)
-	if version >= 1 {
+	if version >= 2 {
 		buf.Write(r.TaggedFields.Encode())
 	}
 	binary.Write(buf, binary.BigEndian, r.ThrottleTimeMs)
-- 
2.43.0


From a0e04c0cd4bebf44e4d1882282e95b5016eff7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:18 +0000
Subject: [PATCH 013/103] fix: DescribeGroups of a rebalancing group, error
 code overwritten by the next member

---
 describe_groups_response.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index d062b7d..913dac8 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -117,7 +117,13 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
-			group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+			if l > 0 { // a member has no assignment while the group is rebalancing
+				memberAssignment, e := NewMemberAssignment(group.Members[i].RawMemberAssignment)
+				if e != nil && err == nil {
+					err = e
+				}
+				group.Members[i].MemberAssignment = memberAssignment
+			}
 			offset += l
 		}
 
-- 
2.43.0


From 0a505ab45db8fd4ece5aeac760ef296538aba54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:20 +0000
Subject: [PATCH 014/103] fix: DeleteAcls response has tagged fields only in
 flexible versions

---
 delete_acls_response.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/delete_acls_response.go b/delete_acls_response.go
index 3eb39ca..46fbceb 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -195,12 +195,16 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 		}
 
-		r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.ResponseHeader.IsFlexible() {
+			r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
 
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if r.ResponseHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
@@ -243,9 +247,13 @@ func (r *DeleteAclsResponse) Encode() (payload []byte) {
 			buf.Write(m.encode(r.ResponseHeader.apiVersion, r.ResponseHeader.IsFlexible()))
 		}
 
-		buf.Write(fr.TaggedFields.Encode())
+		if r.ResponseHeader.IsFlexible() {
+			buf.Write(fr.TaggedFields.Encode())
+		}
 	}
 
-	buf.Write(r.TaggedFields.Encode())
+	if r.ResponseHeader.IsFlexible() {
+		buf.Write(r.TaggedFields.Encode())
+	}
 	return buf.Bytes()
 }
-- 
2.43.0


From 52b5fd0475a75cc03863398106222ebf6e5c00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:23 +0000
Subject: [PATCH 015/103] fix: error code without message in responses caused a
 nil dereference

---
 alter_partition_reassignments_response.go | 4 ++--
 create_partitions_response.go             | 2 +-
 delete_acls_response.go                   | 6 +++---
 errorcode.go                              | 8 ++++++++
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 42162fe..c4b754f 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -19,12 +19,12 @@ type AlterPartitionReassignmentsResponse struct {
 
 func (r *AlterPartitionReassignmentsResponse) Error() error {
 	if r.ErrorCode != 0 {
-		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), *r.ErrorMsg)
+		return errorWithMessage(r.ErrorCode, r.ErrorMsg)
 	}
 	for _, t := range r.Responses {
 		for _, p := range t.Partitions {
 			if p.ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), *p.ErrorMsg)
+				return errorWithMessage(p.ErrorCode, p.ErrorMsg)
 			}
 		}
 	}
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 4861514..b72bf17 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -24,7 +24,7 @@ type createPartitionsResponseResultBlock struct {
 func (r CreatePartitionsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, *result.ErrorMessage, KafkaError(result.ErrorCode))
+			return fmt.Errorf("create partitions error(%d): %w", result.ErrorCode, errorWithMessage(result.ErrorCode, result.ErrorMessage))
 		}
 	}
 	return nil
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 46fbceb..38ba8d0 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -126,12 +126,12 @@ type DeleteAclsResponse struct {
 func (r *DeleteAclsResponse) Error() (err error) {
 	for i := range r.FilterResults {
 		if r.FilterResults[i].ErrorCode != 0 {
-			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), *r.FilterResults[i].ErrorMessage)
+			return errorWithMessage(r.FilterResults[i].ErrorCode, r.FilterResults[i].ErrorMessage)
 		}
 		for j := range r.FilterResults[i].MatchingAcls {
 			if r.FilterResults[i].MatchingAcls[j].ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].MatchingAcls[j].ErrorCode),
-					*r.FilterResults[i].MatchingAcls[j].ErrorMessage)
+				return errorWithMessage(r.FilterResults[i].MatchingAcls[j].ErrorCode,
+					r.FilterResults[i].MatchingAcls[j].ErrorMessage)
 			}
 		}
 	}
diff --git a/errorcode.go b/errorcode.go
index d17df81..a2324c3 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -42,6 +42,14 @@ func getErrorFromErrorCode(errorcode int16) error {
 	return fmt.Errorf("unknown error code:%d", errorcode)
 }
 
+// errorWithMessage adds the message of the broker, which may be null, to the error
+func errorWithMessage(errorcode int16, message *string) error {
+	if message == nil {
+		return KafkaError(errorcode)
+	}
+	return fmt.Errorf("%w: %s", KafkaError(errorcode), *message)
+}
+
 func init() {
 	AllError[-1] = &Error{
 		ErrorCode: -1,
-- 
2.43.0


From b71abff300019e30de26feb8fc0aeff5c67d866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:26 +0000
Subject: [PATCH 016/103] fix: tagged fields of the CreatePartitions response

---
 create_partitions_response.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/create_partitions_response.go b/create_partitions_response.go
index b72bf17..e8ee832 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -42,12 +42,9 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 	}
 	offset += 4
 
-	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
-	offset += 4
-	if version == 2 {
-		// TAG_BUFFER
-		offset++
-	}
+	header, o := DecodeResponseHeader(payload[offset:], API_CreatePartitions, version)
+	offset += o
+	r.CorrelationID = header.CorrelationID
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
@@ -89,11 +86,15 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			offset += o
 			r.Results[i].ErrorMessage = msg
 		}
-		// TAG_BUFFER
-		offset++
+		if version >= 2 {
+			_, o := DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
+	}
+	if version >= 2 {
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
-	// TAG_BUFFER
-	offset++
 
 	return
 }
-- 
2.43.0


From e0f08fe3e3b950bb6b624579d7730c4c93b59223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:28 +0000
Subject: [PATCH 017/103] fix: ListGroups ignored the error code

---
 list_groups_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_groups_response.go b/list_groups_response.go
index 000ad86..5c03adb 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -25,7 +25,7 @@ type ListGroupsResponse struct {
 }
 
 func (r *ListGroupsResponse) Error() error {
-	return nil
+	return getErrorFromErrorCode(int16(r.ErrorCode))
 }
 
 func (g *Group) tags() (fieldsVersions map[string]uint16) {
-- 
2.43.0


From 8520c264c184596b126d1580c34db0750c2c7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 018/103] fix: error code of the SaslHandshake response,
 truncated SaslAuthenticate response

---
 sasl_authenticate_response.go | 2 +-
 sasl_handshake_response.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sasl_authenticate_response.go b/sasl_authenticate_response.go
index 38779e8..4e7aed6 100644
--- a/sasl_authenticate_response.go
+++ b/sasl_authenticate_response.go
@@ -43,7 +43,7 @@ func NewSaslAuthenticateResponse(payload []byte) (r SaslAuthenticateResponse, er
 	l = int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 	r.SaslAuthBytes = make([]byte, l)
-	copy(r.SaslAuthBytes, payload[offset:])
+	copy(r.SaslAuthBytes, payload[offset:offset+l])
 
 	return r, err
 }
diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index ad222f8..97a3f2d 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -32,7 +32,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ErrorCode = int16(uint16(binary.BigEndian.Uint32(payload[offset:])))
+	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	if r.ErrorCode != 0 {
 		err = KafkaError(r.ErrorCode)
-- 
2.43.0


From 31a3c051d9ae5f3dc9403f44b564c3f8d47e54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:34 +0000
Subject: [PATCH 019/103] fix: null arrays in the DescribeLogDirs response

---
 describe_logdirs_response.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/describe_logdirs_response.go b/describe_logdirs_response.go
index b30bdf3..611ca23 100644
--- a/describe_logdirs_response.go
+++ b/describe_logdirs_response.go
@@ -38,7 +38,7 @@ func decodeToDescribeLogDirsResponseTopic(payload []byte, version uint16) (r Des
 	r.TopicName = string(payload[offset : offset+l])
 	offset += l
 
-	numPartitions := int(binary.BigEndian.Uint32(payload[offset:]))
+	numPartitions := int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 	if numPartitions == -1 {
 		r.Partitions = nil
@@ -54,7 +54,7 @@ func decodeToDescribeLogDirsResponseTopic(payload []byte, version uint16) (r Des
 	}
 
 	var o int
-	for i := 0; i < numPartitions; i++ {
+	for i := int32(0); i < numPartitions; i++ {
 		r.Partitions[i], o = decodeToDescribeLogDirsResponsePartition(payload[offset:], version)
 		offset += o
 	}
@@ -95,13 +95,13 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 	}
 	offset += 4
 
-	r.CoordinatorID = binary.BigEndian.Uint32(payload)
+	r.CoordinatorID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	numResults := int(binary.BigEndian.Uint32(payload[offset:]))
+	numResults := int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 	if numResults == -1 {
 		r.Results = nil
@@ -115,7 +115,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		r.Results = make([]DescribeLogDirsResponseResult, numResults)
 	}
 
-	for i := 0; i < numResults; i++ {
+	for i := int32(0); i < numResults; i++ {
 		r.Results[i].ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
 
@@ -124,7 +124,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		r.Results[i].LogDir = string(payload[offset : offset+l])
 		offset += l
 
-		numTopics := int(binary.BigEndian.Uint32(payload[offset:]))
+		numTopics := int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
 		if numTopics == -1 {
 			r.Results[i].Topics = nil
@@ -139,7 +139,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		}
 
 		var o int
-		for j := 0; j < numTopics; j++ {
+		for j := int32(0); j < numTopics; j++ {
 			r.Results[i].Topics[j], o, err = decodeToDescribeLogDirsResponseTopic(payload[offset:], version)
 			offset += o
 			if err != nil {
-- 
2.43.0


From 0cbeb0428bfea9e76406df45a0856209963630e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 020/103] fix: decoding of produce responses with several
 partitions and of version 0

---
 produce_response.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/produce_response.go b/produce_response.go
index 4d79488..39e784d 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -50,7 +50,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	offset += 8
 
 	tags := p.tags()
-	if version >= tags["GroupState"] {
+	if version >= tags["LogAppendTimeMs"] {
 		p.LogAppendTimeMs = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 	}
@@ -84,8 +84,10 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 				offset += o
 			}
 
-			r.TaggedField, o = DecodeTaggedFields(payload[offset:])
-			offset += o
+			if isFlexible {
+				r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+				offset += o
+			}
 		}
 	}
 
@@ -98,6 +100,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 		offset += o
 	}
 
+	if isFlexible {
+		p.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return
 }
 
@@ -126,11 +133,13 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
-		p.decode(payload[offset:], version, isFlexible)
+		offset += p.decode(payload[offset:], version, isFlexible)
 	}
 
-	t.TaggedField, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if isFlexible {
+		t.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return
 }
@@ -139,7 +148,7 @@ type ProduceResponse struct {
 	ResponseHeader
 	ProduceResponses []produceResponseT
 
-	ThrottleTimeMs int32        `healer:"minVersion:3"`
+	ThrottleTimeMs int32        `healer:"minVersion:1"`
 	TaggedField    TaggedFields `json:"tagged_fields"`
 }
 
@@ -165,7 +174,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 	}
 	offset += 4
 
-	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_DeleteAcls, version)
+	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_ProduceRequest, version)
 	offset += o
 
 	isFlexible := r.ResponseHeader.IsFlexible()
@@ -184,5 +193,14 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 		offset += r.ProduceResponses[i].decode(payload[offset:], version, isFlexible)
 	}
 
+	if version >= 1 {
+		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
+	}
+	if isFlexible {
+		r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return r, err
 }
-- 
2.43.0


From e9cc6cdb4b7a474f785f699f66b254d0c3b46285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:12 +0000
Subject: [PATCH 021/103] fix: a compact field cut off by the end of the
 response was taken for null

---
 primitive_types_decode.go | 19 ++++++++++++++-----
 tagged_fields.go          |  6 +++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/primitive_types_decode.go b/primitive_types_decode.go
index b712328..07bc0c0 100644
--- a/primitive_types_decode.go
+++ b/primitive_types_decode.go
@@ -8,6 +8,15 @@ some types, such as boolean or int32, are easy to be decoded. I don't write them
 I only write the types that are not easy to be decoded, including COMPACT_STRING and COMPACT_BYTES etc.
 ***/
 
+// uvarint decodes an UNSIGNED_VARINT. like the fixed size integers, it panics if the payload is too short
+func uvarint(payload []byte) (uint64, int) {
+	v, n := binary.Uvarint(payload)
+	if n <= 0 {
+		panic("malformed unsigned varint")
+	}
+	return v, n
+}
+
 func nonnullableString(payload []byte) (r string, offset int) {
 	l := int(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
@@ -20,7 +29,7 @@ func nonnullableString(payload []byte) (r string, offset int) {
 // First the length N + 1 is given as an UNSIGNED_VARINT.
 // Then N bytes follow which are the UTF-8 encoding of the character sequence.
 func compactString(payload []byte) (r string, offset int) {
-	length, o := binary.Uvarint(payload)
+	length, o := uvarint(payload)
 	length--
 	r = string(payload[o : o+int(length)])
 	return r, o + int(length)
@@ -44,7 +53,7 @@ func nullableString(payload []byte) (r *string, offset int) {
 // Then N bytes follow which are the UTF-8 encoding of the character sequence.
 // A null string is represented with a length of 0.
 func compactNullableString(payload []byte) (r *string, offset int) {
-	length, o := binary.Uvarint(payload)
+	length, o := uvarint(payload)
 	if length == 0 {
 		return nil, o
 	}
@@ -57,7 +66,7 @@ func compactNullableString(payload []byte) (r *string, offset int) {
 // First the length N+1 is given as an UNSIGNED_VARINT.
 // Then N bytes follow.
 func compactBytes(payload []byte) (r []byte, offset int) {
-	length, o := binary.Uvarint(payload)
+	length, o := uvarint(payload)
 	length--
 	r = payload[o : o+int(length)]
 	return r, o + int(length)
@@ -80,7 +89,7 @@ func nullableBytes(payload []byte) (r []byte, offset int) {
 // First the length N+1 is given as an UNSIGNED_VARINT.
 // Then N bytes follow. A null object is represented with a length of 0.
 func compactNullableBytes(payload []byte) (r []byte, offset int) {
-	length, o := binary.Uvarint(payload)
+	length, o := uvarint(payload)
 	length--
 
 	if length == 0 {
@@ -97,6 +106,6 @@ func compactNullableBytes(payload []byte) (r []byte, offset int) {
 // A null array is represented with a length of 0.
 // In protocol documentation an array of T instances is referred to as [T].
 func compactArrayLength(payload []byte) (length int32, offset int) {
-	l, offset := binary.Uvarint(payload)
+	l, offset := uvarint(payload)
 	return int32(l) - 1, offset
 }
diff --git a/tagged_fields.go b/tagged_fields.go
index f2a7e03..c4787a5 100644
--- a/tagged_fields.go
+++ b/tagged_fields.go
@@ -45,12 +45,12 @@ func (r TaggedFields) Encode() []byte {
 
 func DecodeTaggedFields(payload []byte) (r TaggedFields, length int) {
 	offset := 0
-	taggedFieldsLength, n := binary.Uvarint(payload)
+	taggedFieldsLength, n := uvarint(payload)
 	offset += n
 	for i := uint64(0); i < taggedFieldsLength; i++ {
-		tag, n := binary.Uvarint(payload[offset:])
+		tag, n := uvarint(payload[offset:])
 		offset += n
-		dataLength, n := binary.Uvarint(payload[offset:])
+		dataLength, n := uvarint(payload[offset:])
 		offset += n
 		data := payload[offset : offset+int(dataLength)]
 		offset += int(dataLength)
-- 
2.43.0


From 2bbd4747018ba38986d32cda370e0778f420b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:15 +0000
Subject: [PATCH 022/103] fix: DescribeAcls allocated gigabytes for a null
 array

---
 desscribe_acls_response.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index 76acf7e..6e33dec 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -113,18 +113,20 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 		}
 
 		// Acls array
-		var aclCount uint32
+		var aclCount int32
 		if version <= 1 {
-			aclCount = binary.BigEndian.Uint32(payload[offset:])
+			aclCount = int32(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
 		} else {
 			c, o := compactArrayLength(payload[offset:])
-			aclCount = uint32(c)
+			aclCount = c
 			offset += o
 		}
-		response.Resources[i].Acls = make([]Acl, aclCount)
+		if aclCount >= 0 {
+			response.Resources[i].Acls = make([]Acl, aclCount)
+		}
 
-		for j := uint32(0); j < aclCount; j++ {
+		for j := int32(0); j < aclCount; j++ {
 			if version <= 1 {
 				str, n := nonnullableString(payload[offset:])
 				response.Resources[i].Acls[j].Principal = str
-- 
2.43.0


From 47dc649c985974eb856e63d73f69d7023d669426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:29 +0000
Subject: [PATCH 023/103] fix: DeleteAcls request with tagged fields did not
 fit into its buffer

---
 delete_acls_request.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/delete_acls_request.go b/delete_acls_request.go
index f4e8213..d2a60cc 100644
--- a/delete_acls_request.go
+++ b/delete_acls_request.go
@@ -32,6 +32,7 @@ func (f *DeleteAclsFilter) length() (n int) {
 		n += len(*f.Host)
 	}
 	n += 1 // operation
+	n += 1 // permission type
 
 	n += f.TaggedFields.length()
 	return
@@ -97,6 +98,7 @@ func (r *DeleteAclsRequest) length() (n int) {
 	for _, filter := range r.Filters {
 		n += filter.length()
 	}
+	n += r.TaggedFields.length()
 	return n
 }
 
@@ -195,11 +197,18 @@ func DecodeDeleteAclsRequest(payload []byte) (*DeleteAclsRequest, error) {
 		f.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		f.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.RequestHeader.IsFlexible() {
+			f.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Filters[i] = f
 	}
 
+	if r.RequestHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return r, nil
 }
-- 
2.43.0


From 452b6b489f3d5c1ff0844f75127d4573aa89ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:31 +0000
Subject: [PATCH 024/103] fix: CreateAcls request has tagged fields only in
 flexible versions

---
 create_acls_request.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/create_acls_request.go b/create_acls_request.go
index 180bef2..621b84c 100644
--- a/create_acls_request.go
+++ b/create_acls_request.go
@@ -60,7 +60,9 @@ func (a *AclCreation) encodeTo(payload []byte, version uint16, headerVersion uin
 	offset++
 	payload[offset] = uint8(a.PermissionType)
 	offset++
-	offset += copy(payload[offset:], a.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], a.TaggedFields.Encode())
+	}
 
 	return
 }
@@ -103,7 +105,9 @@ func (r *CreateAclsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	// Write the tag buffer
-	offset += copy(payload[offset:], r.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], r.TaggedFields.Encode())
+	}
 
 	return payload
 }
@@ -173,15 +177,19 @@ func DecodeCreateAclsRequest(payload []byte) (r CreateAclsRequest, err error) {
 		creation.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if headerVersion >= 2 {
+			creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Creations[i] = *creation
 	}
 
 	// Decode TaggedFields
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if headerVersion >= 2 {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
-- 
2.43.0


From 9390291ce3aab3ff744751524eb52a6b223a98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:34 +0000
Subject: [PATCH 025/103] fix: DescribeAcls request has tagged fields only in
 flexible versions

---
 describe_acls_request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/describe_acls_request.go b/describe_acls_request.go
index 2fa0509..b77b6c5 100644
--- a/describe_acls_request.go
+++ b/describe_acls_request.go
@@ -58,7 +58,9 @@ func (r *DescribeAclsRequest) Encode(version uint16) (rst []byte) {
 
 	binary.Write(buf, binary.BigEndian, r.PermissionType)
 
-	buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	if version >= 2 {
+		buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	}
 
 	return buf.Bytes()
 }
-- 
2.43.0


From fe2fd07bb9dfdfbb56c349901ae805ef72ca2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:36 +0000
Subject: [PATCH 026/103] fix: ListGroups request sent a null array for a nil
 filter

---
 list_groups_request.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/list_groups_request.go b/list_groups_request.go
index 84a4481..991fd20 100644
--- a/list_groups_request.go
+++ b/list_groups_request.go
@@ -80,11 +80,7 @@ func (r *ListGroupsRequest) Encode(version uint16) (payload []byte) {
 	offset += r.RequestHeader.EncodeTo(payload[offset:])
 
 	if r.APIVersion >= tags["StatesFilter"] {
-		if r.StatesFilter == nil {
-			compactArrayCount = -1
-		} else {
-			compactArrayCount = len(r.StatesFilter)
-		}
+		compactArrayCount = len(r.StatesFilter) // not nullable, nil means no filter
 		if r.IsFlexible() {
 			offset += copy(payload[offset:], encodeCompactArrayLength(compactArrayCount))
 		} else {
@@ -102,11 +98,7 @@ func (r *ListGroupsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	if r.APIVersion >= tags["TypesFilter"] {
-		if r.TypesFilter == nil {
-			compactArrayCount = -1
-		} else {
-			compactArrayCount = len(r.TypesFilter)
-		}
+		compactArrayCount = len(r.TypesFilter) // not nullable, nil means no filter
 		if r.IsFlexible() {
 			offset += copy(payload[offset:], encodeCompactArrayLength(compactArrayCount))
 		} else {
-- 
2.43.0


From fe1b41ab2738eb47fb54441bbeb939c9908714ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:39 +0000
Subject: [PATCH 027/103] fix: AlterPartitionReassignments could not cancel a
 reassignment

---
 alter_partition_reassignments_request.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/alter_partition_reassignments_request.go b/alter_partition_reassignments_request.go
index ba87d0f..1067581 100644
--- a/alter_partition_reassignments_request.go
+++ b/alter_partition_reassignments_request.go
@@ -134,7 +134,12 @@ func (r *AlterPartitionReassignmentsPartition) encode(payload []byte) (offset in
 	binary.BigEndian.PutUint32(payload[offset:], uint32(r.PartitionID))
 	offset += 4
 
-	offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	if r.Replicas == nil {
+		// null cancels a pending reassignment
+		offset += copy(payload[offset:], encodeCompactArrayLength(-1))
+	} else {
+		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	}
 
 	for _, replica := range r.Replicas {
 		binary.BigEndian.PutUint32(payload[offset:], uint32(replica))
-- 
2.43.0


From 3b543b1898b79982547abb98f877e57ba3fd58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:41 +0000
Subject: [PATCH 028/103] fix: CreatePartitions request v0 sent an empty array
 instead of null

---
 create_partitions_request.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/create_partitions_request.go b/create_partitions_request.go
index 2a522c0..767e837 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -84,7 +84,11 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 			offset += binary.PutUvarint(payload[offset:], 1+uint64(len(r.Assignments)))
 		}
 	case 0:
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		if r.Assignments == nil {
+			binary.BigEndian.PutUint32(payload[offset:], 0xFFFFFFFF)
+		} else {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		}
 		offset += 4
 	}
 	for _, assignment := range r.Assignments {
@@ -105,6 +109,7 @@ func (r *CreatePartitionsRequest) length(version uint16) (length int) {
 		length += 2 + len(topic.Name)                  // name
 		length += 4                                    // count
 		length += 4                                    // assignments length
+		length += topic.TaggedFields.length()          // TAG_BUFFER
 		for _, assignment := range topic.Assignments { // assignments
 			length += 4
 			length += 4 * len(assignment.BrokerIDs)
-- 
2.43.0


From f24194da2eae13a4c90c345c9be23a6e5a200834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:44 +0000
Subject: [PATCH 029/103] fix: request sent again with another version kept the
 old header version

---
 request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request.go b/request.go
index 7a94b44..149ae53 100644
--- a/request.go
+++ b/request.go
@@ -188,6 +188,9 @@ func (requestHeader *RequestHeader) SetVersion(version uint16) {
 	// if requestHeader.APIVersion == -1 {
 	// 	return
 	// }
+	if requestHeader.APIVersion != version {
+		requestHeader.hv = nil // it depends on the version
+	}
 	requestHeader.APIVersion = version
 }
 
-- 
2.43.0


From 88f7b4a675557b3e4c27f5fd4588e51e1bc18557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:46 +0000
Subject: [PATCH 030/103] fix: keep the broker connection when the response is
 an error code

---
 broker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 03a4c14..8fdf5cd 100644
--- a/broker.go
+++ b/broker.go
@@ -252,7 +252,10 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 	resp, err = rp.ReadAndParse()
 	if err != nil {
 		// the response may still be on its way, the next request must not read it
-		broker.Close()
+		var kafkaError KafkaError
+		if !errors.As(err, &kafkaError) {
+			broker.Close()
+		}
 		return nil, err
 	}
 	return resp, resp.Error()
-- 
2.43.0


From 7b7a462ff849b482b0affbddc25c9d4e4efeada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 031/103] fix: closing a broker during a request dereferenced
 its nil connection

A short write or a length split over two packets of a fetch is handled too.
---
 broker.go         | 39 +++++++++++++++++++++++++++------------
 fetch_response.go |  2 --
 response.go       | 13 +++++++++----
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/broker.go b/broker.go
index 8fdf5cd..2451f9e 100644
--- a/broker.go
+++ b/broker.go
@@ -69,11 +69,20 @@ func (broker *Broker) createConn() error {
 	if conn, err := newConn(broker.GetAddress(), broker.config); err != nil {
 		return err
 	} else {
+		broker.closeLock.Lock()
 		broker.conn = conn
+		broker.closeLock.Unlock()
 		return nil
 	}
 }
 
+// getConn returns the current connection, or nil if there is none. Close may be called at any time by another goroutine
+func (broker *Broker) getConn() net.Conn {
+	broker.closeLock.Lock()
+	defer broker.closeLock.Unlock()
+	return broker.conn
+}
+
 // create a new connection to the broker, and then do the sasl authenticate if needed
 func (broker *Broker) createConnAndAuth() error {
 	if err := broker.createConn(); err != nil {
@@ -205,7 +214,7 @@ func (broker *Broker) Close() {
 	}
 }
 func (broker *Broker) ensureOpen() (err error) {
-	if broker.conn != nil {
+	if broker.getConn() != nil {
 		return nil
 	}
 	return broker.createConnAndAuth()
@@ -262,13 +271,17 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 }
 
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn := broker.getConn()
+	if conn == nil {
+		return defaultReadParser{}, net.ErrClosed
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if _, err := io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
 
@@ -286,31 +299,33 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 		}
 	}()
 
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn := broker.getConn()
+	if conn == nil {
+		return nil, 0, net.ErrClosed
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(broker.conn, bytes.NewBuffer(payload))
+	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
+		return nil, responseLength, err
+	}
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
-		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+		conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := broker.conn.Read(responseLengthBuf)
-	if err != nil {
+	if _, err = io.ReadFull(conn, responseLengthBuf); err != nil {
 		return nil, responseLength, err
 	}
-	if n != 4 {
-		return nil, responseLength, errShortRead
-	}
 
 	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
 
 	reader := &io.LimitedReader{
-		R: broker.conn,
+		R: conn,
 		N: int64(responseLength),
 	}
 	return reader, responseLength, nil
diff --git a/fetch_response.go b/fetch_response.go
index fef9dfa..3ced329 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -57,8 +57,6 @@ type fetchResponseStreamDecoder struct {
 	hasOneMessage bool
 }
 
-var errShortRead = errors.New("short read")
-
 func (streamDecoder *fetchResponseStreamDecoder) end() bool {
 	return streamDecoder.offset >= streamDecoder.totalLength
 }
diff --git a/response.go b/response.go
index 51409eb..19d4849 100644
--- a/response.go
+++ b/response.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"net"
 	"time"
 )
 
@@ -45,12 +46,16 @@ func (p defaultReadParser) ReadAndParse() (Response, error) {
 func (p defaultReadParser) Read() ([]byte, error) {
 	//TODO use LimitedReader
 	l := 0
+	conn := p.broker.getConn()
+	if conn == nil {
+		return nil, net.ErrClosed
+	}
 	responseLengthBuf := make([]byte, 4)
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(responseLengthBuf[l:])
+		length, err := conn.Read(responseLengthBuf[l:])
 		if err != nil {
 			return nil, err
 		}
@@ -69,9 +74,9 @@ func (p defaultReadParser) Read() ([]byte, error) {
 	readLength := 0
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(resp[4+readLength:])
+		length, err := conn.Read(resp[4+readLength:])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 44d67636c7bdae5b97a93cd0f19e491330f3d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 032/103] fix: reconnect to a broker with SASL deadlocked,
 unsupported mechanism crashed

---
 broker.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/broker.go b/broker.go
index 2451f9e..bfbfc96 100644
--- a/broker.go
+++ b/broker.go
@@ -172,7 +172,8 @@ func (broker *Broker) sendSaslAuthenticate() error {
 	)
 
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
-	resp, err := broker.RequestAndGet(saslHandShakeRequest)
+	// not RequestAndGet: a reconnecting RequestAndGet already holds the lock
+	resp, err := broker.exchange(saslHandShakeRequest)
 	if err != nil {
 		return err
 	}
@@ -182,7 +183,10 @@ func (broker *Broker) sendSaslAuthenticate() error {
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
-	resp, err = broker.RequestAndGet(saslAuthenticateRequest)
+	if saslAuthenticateRequest.RequestHeader == nil {
+		return fmt.Errorf("sasl mechanism %s is not supported", mechanism)
+	}
+	resp, err = broker.exchange(saslAuthenticateRequest)
 	if err != nil {
 		return err
 	}
@@ -252,6 +256,11 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
+	return broker.exchange(r)
+}
+
+// exchange sends a request over the open connection and returns the response, broker.mux must be held
+func (broker *Broker) exchange(r Request) (resp Response, err error) {
 	rp, err := broker.Request(r)
 	if err != nil {
 		broker.Close()
-- 
2.43.0


From ee2195c1f8b3016e01c03a128967c60a4734e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:54 +0000
Subject: [PATCH 033/103] fix: close the connection when its initialization
 failed

It leaked, or was used without authentication by the next request.
---
 broker.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index bfbfc96..6b4bb1b 100644
--- a/broker.go
+++ b/broker.go
@@ -84,10 +84,16 @@ func (broker *Broker) getConn() net.Conn {
 }
 
 // create a new connection to the broker, and then do the sasl authenticate if needed
-func (broker *Broker) createConnAndAuth() error {
+func (broker *Broker) createConnAndAuth() (err error) {
 	if err := broker.createConn(); err != nil {
 		return err
 	}
+	// a connection that is not initialized must not be used by the next request
+	defer func() {
+		if err != nil {
+			broker.Close()
+		}
+	}()
 
 	clientID := "healer-init"
 	apiVersionsResponse, err := broker.requestAPIVersions(clientID)
-- 
2.43.0


From 7734de30f43aaa09e784f87ed2f34232a5c52fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 034/103] fix: fetch reopened the connection without holding
 the lock

Also use the default timeout if there is none for the fetch api, as other requests do.
---
 broker.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/broker.go b/broker.go
index 6b4bb1b..cc608b5 100644
--- a/broker.go
+++ b/broker.go
@@ -397,13 +397,13 @@ func (broker *Broker) requestOffsets(clientID, topic string, partitionIDs []int3
 }
 
 func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.Reader, responseLength uint32, err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
 	if err := broker.ensureOpen(); err != nil {
 		return nil, 0, err
 	}
 
-	broker.mux.Lock()
-	defer broker.mux.Unlock()
-
 	broker.correlationID++
 
 	fetchRequest.SetCorrelationID(broker.correlationID)
@@ -411,7 +411,9 @@ func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.
 
 	timeout := broker.config.Net.TimeoutMS
 	if len(broker.config.Net.TimeoutMSForEachAPI) > int(fetchRequest.API()) {
-		timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		if broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()] > 0 {
+			timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		}
 	}
 
 	return broker.requestStreamingly(payload, timeout)
-- 
2.43.0


From d1f0bfbd024dcd72a2851df468306e540d9766a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:59 +0000
Subject: [PATCH 035/103] fix: failed leave group request crashed

---
 broker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index cc608b5..2452e59 100644
--- a/broker.go
+++ b/broker.go
@@ -469,5 +469,8 @@ func (broker *Broker) requestHeartbeat(clientID, groupID string, generationID in
 func (broker *Broker) requestLeaveGroup(clientID, groupID string, memberID string) (r LeaveGroupResponse, err error) {
 	leaveReq := NewLeaveGroupRequest(clientID, groupID, memberID)
 	resp, err := broker.RequestAndGet(leaveReq)
-	return resp.(LeaveGroupResponse), err
+	if v, ok := resp.(LeaveGroupResponse); ok {
+		return v, err
+	}
+	return r, err
 }
-- 
2.43.0


From 2747585e16b53a4529dd093efb340531901d2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:11 +0000
Subject: [PATCH 036/103] fix: connection to the bootstrap broker leaked, or
 had the node ID -1

Client.ListGroups reported the groups of the bootstrap broker as those of node -1.
---
 brokers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/brokers.go b/brokers.go
index 94e993f..a1c6bc4 100644
--- a/brokers.go
+++ b/brokers.go
@@ -50,6 +50,7 @@ func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Broke
 			brokers, err := newBrokersFromOne(broker, clientID, config)
 			if err != nil {
 				logger.Error(err, "could not create broker list", "address", broker)
+				broker.Close()
 			} else {
 				brokers.bootstrapServers = bootstrapServers
 				return brokers, nil
@@ -90,9 +91,14 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 	for _, brokerInfo := range metadataResponse.Brokers {
 		brokers.brokersInfo[brokerInfo.NodeID] = brokerInfo
 		if broker.GetAddress() == brokerInfo.NetAddress() {
+			broker.nodeID = brokerInfo.NodeID
 			brokers.brokers[brokerInfo.NodeID] = broker
 		}
 	}
+	if len(brokers.brokers) == 0 {
+		// the address is only a bootstrap one, such as a load balancer, nobody would ever use or close the connection
+		broker.Close()
+	}
 
 	for nodeID, broker := range brokers.brokersInfo {
 		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-- 
2.43.0


From 311b346abaad864b7c890de110da807726055934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:14 +0000
Subject: [PATCH 037/103] fix: refreshing the broker list leaked its
 connections and kept the old controller

---
 brokers.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/brokers.go b/brokers.go
index a1c6bc4..e0f7908 100644
--- a/brokers.go
+++ b/brokers.go
@@ -129,21 +129,14 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
-			logger.Info("no broker returned from metadata response")
-			broker.Close()
+			logger.Info("no broker returned from metadata response", "error", err)
 			continue
 		}
 
-		brokersInfo := make(map[int32]*BrokerInfo)
-		for _, brokerInfo := range metadataResponse.Brokers {
-			brokersInfo[brokerInfo.NodeID] = brokerInfo
-		}
-		brokers.brokersInfo = brokersInfo
-
-		for nodeID, broker := range brokers.brokersInfo {
-			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-		}
+		brokers.setBrokersInfo(metadataResponse)
+		return true
 	}
 
 	logger.Info("update metadata from latest brokersInfo")
@@ -157,25 +150,31 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
-			logger.Info("no broker returned from metadata response")
+			logger.Info("no broker returned from metadata response", "error", err)
 			continue
 		}
 
-		brokersInfo := make(map[int32]*BrokerInfo)
-		for _, brokerInfo := range metadataResponse.Brokers {
-			brokersInfo[brokerInfo.NodeID] = brokerInfo
-		}
-		brokers.brokersInfo = brokersInfo
-
-		for nodeID, broker := range brokers.brokersInfo {
-			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-		}
+		brokers.setBrokersInfo(metadataResponse)
 		return true
 	}
 	return false
 }
 
+func (brokers *Brokers) setBrokersInfo(metadataResponse MetadataResponse) {
+	brokersInfo := make(map[int32]*BrokerInfo)
+	for _, brokerInfo := range metadataResponse.Brokers {
+		brokersInfo[brokerInfo.NodeID] = brokerInfo
+	}
+	brokers.brokersInfo = brokersInfo
+	brokers.controllerID = metadataResponse.ControllerID
+
+	for nodeID, broker := range brokersInfo {
+		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
+	}
+}
+
 // TODO merge with GetBroker
 func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
 	if _, ok := brokers.brokersInfo[nodeID]; !ok {
-- 
2.43.0


From 61a7b00232d92f312e7443dd2b779aecfb9d7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:16 +0000
Subject: [PATCH 038/103] fix: data race between a refresh of the broker list
 and its readers

---
 brokers.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/brokers.go b/brokers.go
index e0f7908..45bfb44 100644
--- a/brokers.go
+++ b/brokers.go
@@ -20,6 +20,8 @@ type Brokers struct {
 
 	mutex sync.Locker
 
+	infoLock sync.RWMutex // guards brokersInfo and controllerID. brokersInfo is replaced, and never changed
+
 	closeChan chan struct{}
 }
 
@@ -33,6 +35,8 @@ func (brokers *Brokers) Close() {
 
 // BrokersInfo returns brokers info, it is a private member and should not be changed from outside
 func (brokers *Brokers) BrokersInfo() map[int32]*BrokerInfo {
+	brokers.infoLock.RLock()
+	defer brokers.infoLock.RUnlock()
 	return brokers.brokersInfo
 }
 
@@ -109,6 +113,8 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 
 // Controller return controller broker id
 func (brokers *Brokers) Controller() int32 {
+	brokers.infoLock.RLock()
+	defer brokers.infoLock.RUnlock()
 	return brokers.controllerID
 }
 
@@ -141,7 +147,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 
 	logger.Info("update metadata from latest brokersInfo")
 	// from latest brokersinfo
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		brokerAddr := brokerInfo.NetAddress()
 		broker, err := NewBroker(brokerAddr, -1, brokers.config)
 		if err != nil {
@@ -167,8 +173,10 @@ func (brokers *Brokers) setBrokersInfo(metadataResponse MetadataResponse) {
 	for _, brokerInfo := range metadataResponse.Brokers {
 		brokersInfo[brokerInfo.NodeID] = brokerInfo
 	}
+	brokers.infoLock.Lock()
 	brokers.brokersInfo = brokersInfo
 	brokers.controllerID = metadataResponse.ControllerID
+	brokers.infoLock.Unlock()
 
 	for nodeID, broker := range brokersInfo {
 		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -177,7 +185,7 @@ func (brokers *Brokers) setBrokersInfo(metadataResponse MetadataResponse) {
 
 // TODO merge with GetBroker
 func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
-	if _, ok := brokers.brokersInfo[nodeID]; !ok {
+	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
 		if !brokers.refreshMetadata() {
 			logger.Info("failed to refresh metadata")
@@ -185,7 +193,7 @@ func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
 	}
 
 	// try again after refereshing metadata
-	if brokerInfo, ok := brokers.brokersInfo[nodeID]; ok {
+	if brokerInfo, ok := brokers.BrokersInfo()[nodeID]; ok {
 		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
 		if err == nil {
 			return broker, nil
@@ -205,14 +213,14 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 		return broker, nil
 	}
 
-	if _, ok := brokers.brokersInfo[nodeID]; !ok {
+	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
 		if !brokers.refreshMetadata() {
 			logger.Info("failed to refresh metadata")
 		}
 	}
 
-	if brokerInfo, ok := brokers.brokersInfo[nodeID]; ok {
+	if brokerInfo, ok := brokers.BrokersInfo()[nodeID]; ok {
 		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
 		if err == nil {
 			brokers.brokers[nodeID] = broker
@@ -226,7 +234,7 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 }
 
 func (brokers *Brokers) RequestMetaData(clientID string, topics []string) (r MetadataResponse, err error) {
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		broker, err := brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			logger.Error(err, "get broker failed", "host", brokerInfo.Host, "port", brokerInfo.Port)
@@ -318,7 +326,7 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 // FindCoordinator try to requests FindCoordinator from all brokers and returns response
 func (brokers *Brokers) FindCoordinator(clientID, groupID string) (r FindCoordinatorResponse, err error) {
 	var broker *Broker
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		broker, err = brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			logger.Error(err, "get broker failed", "nodeId", brokerInfo.NodeID)
@@ -363,7 +371,7 @@ func (brokers *Brokers) ElectLeaders(req *ElectLeadersRequest) (r *ElectLeadersR
 
 // Request try to do request from all brokers until get the response
 func (brokers *Brokers) Request(req Request) (Response, error) {
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		broker, err := brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			continue
-- 
2.43.0


From 678c92c2dee44f998b01455f253c118ecdcc7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:18 +0000
Subject: [PATCH 039/103] fix: closing Brokers twice paniced, closing raced
 with GetBroker

---
 brokers.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/brokers.go b/brokers.go
index 45bfb44..dcb3ec9 100644
--- a/brokers.go
+++ b/brokers.go
@@ -10,6 +10,8 @@ import (
 	"time"
 )
 
+var errBrokersClosed = errors.New("brokers closed")
+
 type Brokers struct {
 	config           *BrokerConfig
 	bootstrapServers string
@@ -18,16 +20,19 @@ type Brokers struct {
 	brokers      map[int32]*Broker
 	controllerID int32
 
-	mutex sync.Locker
+	mutex sync.Mutex
 
 	infoLock sync.RWMutex // guards brokersInfo and controllerID. brokersInfo is replaced, and never changed
 
-	closeChan chan struct{}
+	closed bool
 }
 
-// Close close all brokers
+// Close close all brokers. It may be called more than once
 func (brokers *Brokers) Close() {
-	close(brokers.closeChan)
+	brokers.mutex.Lock()
+	defer brokers.mutex.Unlock()
+
+	brokers.closed = true
 	for _, broker := range brokers.brokers {
 		broker.Close()
 	}
@@ -76,8 +81,6 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 		config:      config,
 		brokersInfo: make(map[int32]*BrokerInfo),
 		brokers:     make(map[int32]*Broker),
-		mutex:       &sync.Mutex{},
-		closeChan:   make(chan struct{}, 0),
 	}
 
 	topics := make([]string, 0)
@@ -212,6 +215,9 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	if broker, ok := brokers.brokers[nodeID]; ok {
 		return broker, nil
 	}
+	if brokers.closed {
+		return nil, errBrokersClosed
+	}
 
 	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
-- 
2.43.0


From 46046d1c5e816bed326df9ab3eb8bf785dda1180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 040/103] fix: metadata response without topics crashed

---
 brokers.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/brokers.go b/brokers.go
index dcb3ec9..a77d738 100644
--- a/brokers.go
+++ b/brokers.go
@@ -272,6 +272,9 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 		return nil, fmt.Errorf("could not get metadata of topic[%s]:%w", topic, err)
 	}
 
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return nil, fmt.Errorf("no metadata of topic %s returned", topic)
+	}
 	// TODO only one topic
 	topicMetadata := metadataResponse.TopicMetadatas[0]
 
@@ -320,12 +323,21 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
 	}
 
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		if err != nil {
+			return -1, err
+		}
+		return -1, fmt.Errorf("no metadata of topic %s returned", topic)
+	}
 	partitionMetadatas := metadataResponse.TopicMetadatas[0].PartitionMetadatas
 	for _, partitionMetadata := range partitionMetadatas {
 		if partitionMetadata.PartitionID == partitionID {
 			return partitionMetadata.Leader, nil
 		}
 	}
+	if err != nil {
+		return -1, fmt.Errorf("could not find out leader of topic %s: %w", topic, err)
+	}
 	return -1, fmt.Errorf("could not find out leader of topic %s", topic)
 }
 
-- 
2.43.0


From b88df0f8ed37d3b093a5a392adb8352555c714c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:23 +0000
Subject: [PATCH 041/103] fix: failed delete topics request crashed

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 3619d2d..15e2c71 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,10 @@ func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsR
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	return resp.(DeleteTopicsResponse), err
+	if v, ok := resp.(DeleteTopicsResponse); ok {
+		return v, err
+	}
+	return r, err
 }
 
 // CreateTopic creates a single topic with specified parameters
-- 
2.43.0


From 27255d370aec0af78646c03c204909c0b71acd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:00 +0000
Subject: [PATCH 042/103] fix: null key of a record had the length of the
 previous varint

---
 record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/record.go b/record.go
index 3dfdb3d..0c091c9 100644
--- a/record.go
+++ b/record.go
@@ -65,7 +65,7 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	keyLenBuf := make([]byte, binary.MaxVarintLen64)
 	if r.key == nil {
-		binary.PutVarint(keyLenBuf, -1)
+		n = binary.PutVarint(keyLenBuf, -1)
 	} else {
 		n = binary.PutVarint(keyLenBuf, int64(len(r.key)))
 	}
-- 
2.43.0


From f88d70ba3e6d87d9b1fd79775de1785983a1cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:03 +0000
Subject: [PATCH 043/103] fix: all records of a produced batch had the same
 offset, the key was not copied, null values were sent as empty

The offset delta of a record is its position in the batch. The buffer of the
key belongs to the caller, who may reuse it before the batch is sent, as is
already the case for the value. A null value (a tombstone) is not an empty one.
---
 record.go          |  6 +++++-
 simple_producer.go | 10 ++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/record.go b/record.go
index 0c091c9..a141672 100644
--- a/record.go
+++ b/record.go
@@ -74,7 +74,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	// Encode value
 	valueLenBuf := make([]byte, binary.MaxVarintLen64)
-	n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	if r.value == nil {
+		n = binary.PutVarint(valueLenBuf, -1)
+	} else {
+		n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	}
 	buf.Write(valueLenBuf[:n])
 	buf.Write(r.value)
 
diff --git a/simple_producer.go b/simple_producer.go
index d304dc7..1132aaf 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -1,6 +1,7 @@
 package healer
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"sync"
@@ -136,15 +137,16 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 		return ErrProducerClosed
 	}
 
-	valueCopy := make([]byte, len(value))
-	copy(valueCopy, value)
+	// the caller may reuse its buffers. nil is null, which is not the same as empty
+	keyCopy := bytes.Clone(key)
+	valueCopy := bytes.Clone(value)
 
 	record := Record{
 		attributes:     0x00, // compress in upper message set level
 		timestampDelta: 0,
-		offsetDelta:    0,
+		offsetDelta:    int32(len(p.records)),
 
-		key:   key,
+		key:   keyCopy,
 		value: valueCopy,
 	}
 
-- 
2.43.0


From d87829b8a83f2b6e2ee8791ed2ce5233e61a0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:06 +0000
Subject: [PATCH 044/103] fix: AddMessage ignored the error of the batch that
 it sent

---
 simple_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 1132aaf..8b96117 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -154,7 +154,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	if len(p.records) >= p.config.MessageMaxCount {
 		records := p.records
 		p.records = make([]*Record, 0, p.config.MessageMaxCount)
-		p.flush(records)
+		return p.flush(records)
 	}
 	return nil
 }
-- 
2.43.0


From ff1473379c956d97efaef0878215dde0f4ef1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:08 +0000
Subject: [PATCH 045/103] fix: creating a producer for a partition without
 leader succeeded, and sending crashed

---
 simple_producer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 8b96117..a621077 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -47,7 +47,10 @@ func (p *SimpleProducer) createLeader() (*Broker, error) {
 	}
 
 	leaderID, err := p.brokers.findLeader(p.config.ClientID, p.topic, p.partition)
-	if err != nil || leaderID == -1 {
+	if err == nil && leaderID == -1 {
+		err = errNoLeader
+	}
+	if err != nil {
 		logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", p.partition)
 		return nil, err
 	}
-- 
2.43.0


From 81846496846ad87f3117c8f577230f423d9bd371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 046/103] fix: messages sent again after the producer was
 closed, its connections leaked

---
 simple_producer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simple_producer.go b/simple_producer.go
index a621077..876cb64 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -107,6 +107,9 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	} else {
 		p.leader, err = p.createLeader()
 		if err != nil {
+			if p.brokers != nil {
+				p.brokers.Close()
+			}
 			return nil, fmt.Errorf("create producer leader error: %w", err)
 		}
 	}
@@ -119,6 +122,7 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	// TODO wait to the next ticker to see if messageSet changes
 	go func() {
 		ticker := time.NewTicker(time.Duration(p.config.FlushIntervalMS) * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -238,6 +242,7 @@ func (p *SimpleProducer) Close() {
 		logger.Info("flush before SimpleProducer close")
 		if len(p.records) > 0 {
 			p.flush(p.records)
+			p.records = nil // a later flush must not send them again
 		}
 
 		if p.parent == nil {
@@ -246,6 +251,9 @@ func (p *SimpleProducer) Close() {
 		} else {
 			logger.Info("connection not closed here, parent will close it")
 		}
+		if p.brokers != nil {
+			p.brokers.Close()
+		}
 
 		close(p.closeChan)
 		p.closed = true
-- 
2.43.0


From 476175023ac79078eea695078f4dc99bbe7666ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:13 +0000
Subject: [PATCH 047/103] fix: producing with acks=0 waited for a response that
 never comes

---
 broker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/broker.go b/broker.go
index 2452e59..85a3a5a 100644
--- a/broker.go
+++ b/broker.go
@@ -273,6 +273,11 @@ func (broker *Broker) exchange(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
+	if produceRequest, ok := r.(*ProduceRequest); ok && produceRequest.RequiredAcks == 0 {
+		// the broker sends no response
+		return ProduceResponse{}, nil
+	}
+
 	resp, err = rp.ReadAndParse()
 	if err != nil {
 		// the response may still be on its way, the next request must not read it
-- 
2.43.0


From 8c20e467a67317be17f6f0fff43342a9203450bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:16 +0000
Subject: [PATCH 048/103] fix: adding a message to a closed producer returned
 no error

---
 producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/producer.go b/producer.go
index a8cf18c..540922a 100644
--- a/producer.go
+++ b/producer.go
@@ -181,7 +181,7 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		return err
 	}
-	return nil
+	return ErrProducerClosed
 }
 
 // Close close all simple producers in the console producer
-- 
2.43.0


From c47c33f59efe6a8946eb6ac2df49171ac24364da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:19 +0000
Subject: [PATCH 049/103] fix: topic without available partitions crashed the
 producer

---
 producer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/producer.go b/producer.go
index 540922a..413e398 100644
--- a/producer.go
+++ b/producer.go
@@ -87,14 +87,20 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err != nil {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
-	p.topicMeta = metadataResponse.TopicMetadatas[0]
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return fmt.Errorf("no metadata of topic %s returned", p.topic)
+	}
+	topicMeta := metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
-	for _, partition := range p.topicMeta.PartitionMetadatas {
+	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
 	}
+	if len(validPartitionID) == 0 {
+		return fmt.Errorf("no available partition of topic %s", p.topic)
+	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
 	if err != nil {
@@ -103,6 +109,7 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
-- 
2.43.0


From 32ba13fd808ba46bef05888738a9c2e6c80cf606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:22 +0000
Subject: [PATCH 050/103] fix: closing a producer left its refresh running,
 keyed messages raced with each other

The refresh created a new producer after the close. The maps of the producers
by partition were used without the lock.
---
 producer.go | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/producer.go b/producer.go
index 413e398..5509090 100644
--- a/producer.go
+++ b/producer.go
@@ -28,6 +28,9 @@ type Producer struct {
 	lock                 sync.Mutex
 
 	ctx context.Context
+
+	closed    bool
+	closeChan chan struct{}
 }
 
 // NewProducer creates a new console producer.
@@ -45,6 +48,7 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 		topic:                topic,
 		pidToSimpleProducers: make(map[int32]*SimpleProducer),
 		leaderBrokersMapping: make(map[int32]*Broker),
+		closeChan:            make(chan struct{}),
 	}
 
 	brokerConfig := getBrokerConfigFromProducerConfig(&cfg)
@@ -67,10 +71,17 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	p.ctx = context.WithValue(ctx, parentProducerKey, p)
 
 	go func() {
-		for range time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond).C {
-			err := p.updateCurrentSimpleProducer()
-			if err != nil {
-				logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+		ticker := time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-ticker.C:
+				err := p.updateCurrentSimpleProducer()
+				if err != nil {
+					logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+				}
+			case <-p.closeChan:
+				return
 			}
 		}
 	}()
@@ -109,6 +120,10 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		sp.Close()
+		return ErrProducerClosed
+	}
 	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
@@ -138,9 +153,14 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
+
 	if key == nil {
-		p.lock.Lock()
-		defer p.lock.Unlock()
 		return p.currentProducer, nil
 	}
 
@@ -193,6 +213,15 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+
+	if p.closed {
+		return
+	}
+	p.closed = true
+	close(p.closeChan)
+
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
@@ -203,4 +232,5 @@ func (p *Producer) Close() {
 	for _, broker := range p.leaderBrokersMapping {
 		broker.Close()
 	}
+	p.brokers.Close()
 }
-- 
2.43.0


From 0cd3bb17e49f6574303f5ad9d933158d7e2ca764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:47 +0000
Subject: [PATCH 051/103] fix: keyed messages were sent to the old leader
 forever after a leader change

---
 producer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/producer.go b/producer.go
index 5509090..37cd856 100644
--- a/producer.go
+++ b/producer.go
@@ -125,6 +125,13 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 		return ErrProducerClosed
 	}
 	p.topicMeta = topicMeta
+	for partitionID, keyed := range p.pidToSimpleProducers {
+		if leaderID, err := p.getLeaderID(partitionID); err == nil && leaderID != keyed.leader.nodeID {
+			logger.Info("leader changed", "topic", p.topic, "partitionID", partitionID, "oldLeader", keyed.leader, "newLeader", leaderID)
+			delete(p.pidToSimpleProducers, partitionID)
+			keyed.Close()
+		}
+	}
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
-- 
2.43.0


From 26a5858175914d170b4670210b62c2ad0cc9bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:19 +0000
Subject: [PATCH 052/103] fix: record header with a null value crashed

---
 record.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/record.go b/record.go
index a141672..d857fe4 100644
--- a/record.go
+++ b/record.go
@@ -22,8 +22,10 @@ func decodeHeader(payload []byte) (header RecordHeader, offset int) {
 
 	valueLength, o := binary.Varint(payload[offset:])
 	offset += o
-	header.Value = make([]byte, valueLength)
-	offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	if valueLength >= 0 { // null if negative
+		header.Value = make([]byte, valueLength)
+		offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	}
 	return
 }
 
-- 
2.43.0


From 3621dd66fb4fa356a657f17f8cb3203dfba83315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:21 +0000
Subject: [PATCH 053/103] fix: corrupt record crashed the consumer, empty keys
 and values were decoded as null

---
 record.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/record.go b/record.go
index d857fe4..5d6cf48 100644
--- a/record.go
+++ b/record.go
@@ -3,6 +3,7 @@ package healer
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"hash/crc32"
 )
 
@@ -142,10 +143,18 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 // DecodeToRecord decodes the struct Record from the given payload.
 func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	length, o := binary.Varint(payload)
-	if length == 0 || len(payload[o:]) < int(length) {
+	if o <= 0 || length <= 0 || int64(len(payload)-o) < length {
 		return record, o, errUncompleteRecord
 	}
 	offset += o
+	payload = payload[:offset+int(length)]
+
+	// the lengths in a corrupt record must not crash the process
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("malformed record: %v", e)
+		}
+	}()
 
 	record.attributes = int8(payload[offset])
 	offset++
@@ -161,20 +170,23 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	keyLength, o := binary.Varint(payload[offset:])
 	offset += o
 
-	if keyLength > 0 {
-		record.key = make([]byte, keyLength)
-		offset += copy(record.key, payload[offset:offset+int(keyLength)])
+	if keyLength >= 0 { // null if negative
+		record.key = bytes.Clone(payload[offset : offset+int(keyLength)])
+		offset += len(record.key)
 	}
 
 	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
-	if valueLen > 0 {
-		record.value = make([]byte, valueLen)
-		offset += copy(record.value, payload[offset:offset+int(valueLen)])
+	if valueLen >= 0 { // null if negative
+		record.value = bytes.Clone(payload[offset : offset+int(valueLen)])
+		offset += len(record.value)
 	}
 
 	headerCount, o := binary.Varint(payload[offset:])
 	offset += o
+	if headerCount > int64(len(payload)-offset) {
+		return record, offset, fmt.Errorf("malformed record: %d headers in %d bytes", headerCount, len(payload)-offset)
+	}
 	record.Headers = make([]RecordHeader, headerCount)
 	for i := range record.Headers {
 		record.Headers[i], o = decodeHeader(payload[offset:])
-- 
2.43.0


From d77102705a092b5c55ab1369e354c9e2a3df2c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 054/103] fix: partition header of a fetch response split over
 two packets was garbled

The aborted transactions are only skipped: their number comes from the network
and was allocated at once.
---
 fetch_response.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 3ced329..bd4bf70 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -373,12 +373,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}()
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.PartitionID = int32(binary.BigEndian.Uint32(buf))
 
-	if _, err = streamDecoder.Read(buf[:2]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:2]); err != nil {
 		return err
 	}
 	p.ErrorCode = int16(binary.BigEndian.Uint16(buf))
@@ -386,47 +386,43 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		return KafkaError(p.ErrorCode)
 	}
 
-	if _, err = streamDecoder.Read(buf[:8]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 		return err
 	}
 	// p.HighWatermark = int64(binary.BigEndian.Uint64(buf))
 
 	switch version {
 	case 7, 10:
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LastStableOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LogStartOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:4]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
 		if abortedTransactionsCount > 0 {
-			p.AbortedTransactions = make([]struct {
-				ProducerID  int64
-				FirstOffset int64
-			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
-				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
+				// ProducerID = int64(binary.BigEndian.Uint64(buf))
 
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
-				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
+				// FirstOffset = int64(binary.BigEndian.Uint64(buf))
 			}
 		}
 	}
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.RecordBatchesSize = int32(binary.BigEndian.Uint32(buf))
-- 
2.43.0


From 2660f91d2f51c6688f81d4e0d2b34ddb3fd631cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:12 +0000
Subject: [PATCH 055/103] fix: consumer was stuck at batches without messages,
 and read the next response in the middle of a failed one

Batches emptied by compaction, control batches and batches compressed with an
unknown codec made the consumer double fetch.max.bytes forever. After an error
the consumer sent the next request while the decoder was still reading.
---
 fetch_response.go  | 37 +++++++++++++++++++++++++++----------
 simple_consumer.go | 22 ++++++++++++++++++++--
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index bd4bf70..8b54f06 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -55,6 +55,7 @@ type fetchResponseStreamDecoder struct {
 	startOffset int64
 
 	hasOneMessage bool
+	nextOffset    int64 // the offset after the last complete batch
 }
 
 func (streamDecoder *fetchResponseStreamDecoder) end() bool {
@@ -121,6 +122,8 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("uncompress lz4 records error: %w", err)
 		}
+	default:
+		return nil, fmt.Errorf("compression type %d is not supported", compress)
 	}
 	return uncompressedBytes, nil
 }
@@ -221,8 +224,9 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
-	compress := attributes & 0b11
-	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
+	compress := attributes & 0b111
+	isControlBatch := attributes&0x20 != 0
+	lastOffsetDelta := int32(binary.BigEndian.Uint32(buf[23:]))
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
 	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
@@ -237,19 +241,27 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// 	"baseTimestamp", baseTimestamp, "maxTimestamp", maxTimestamp, "producerID", producerID, "producerEpoch",
 	// 	producerEpoch, "baseSequence", baseSequence, "count", count)
 
-	if count <= 0 {
-		return
-	}
-
-	r := io.LimitReader(streamDecoder, int64(batchLength)-49)
+	r := &io.LimitedReader{R: streamDecoder, N: int64(batchLength) - 49}
 	// set offset immediately because we have to skip the data even if uncompress error
 	offset += int(batchLength) - 49
+
+	// a batch may be left with no records by compaction, and control batches only hold transaction markers
+	if count <= 0 || isControlBatch {
+		if _, err = io.Copy(io.Discard, r); err == nil && r.N <= 0 {
+			streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
+		}
+		return offset, err
+	}
+
 	uncompressedBytes, err := uncompress(int8(compress), r)
 	if err != nil {
-		io.ReadAll(r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
+		io.Copy(io.Discard, r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
 		if streamDecoder.end() && streamDecoder.hasOneMessage {
 			return offset, nil
 		}
+		if r.N > 0 { // the batch is cut off
+			return offset, io.ErrUnexpectedEOF
+		}
 		return offset, fmt.Errorf("uncompress records bytes error: %w", err)
 	}
 
@@ -277,6 +289,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 		}
 	}
 
+	streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
 	return offset, nil
 }
 
@@ -314,12 +327,15 @@ func (streamDecoder *fetchResponseStreamDecoder) putMessage(msg *FullMessage) er
 // that is, `Record Batch`,`Record Batch`,`Record Batch`...
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName string, partitionID int32, messageSetSizeBytes int32, version uint16) (err error) {
 	defer func() {
+		gotSomething := streamDecoder.hasOneMessage || streamDecoder.nextOffset > streamDecoder.startOffset
 		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || err == &maxBytesTooSmall {
-			if streamDecoder.hasOneMessage {
+			if gotSomething {
 				err = nil
+			} else {
+				err = &maxBytesTooSmall
 			}
 		}
-		if !streamDecoder.hasOneMessage && err == nil {
+		if !gotSomething && err == nil {
 			err = &maxBytesTooSmall
 		}
 	}()
@@ -504,6 +520,7 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 	streamDecoder.offset = 0
 	streamDecoder.startOffset = startOffset
 	streamDecoder.hasOneMessage = false
+	streamDecoder.nextOffset = 0
 
 	if err := streamDecoder.decodeHeader(streamDecoder.version); err != nil {
 		return err
diff --git a/simple_consumer.go b/simple_consumer.go
index 273af5b..444f3b2 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"sync"
 	"syscall"
@@ -433,13 +434,13 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 
 		ctx, cancel := context.WithCancel(context.Background())
 		go func() {
+			defer close(innerMessages)
 			if err := frsd.streamDecode(ctx, c.offset); err != nil {
 				if err == context.Canceled {
 					return
 				}
 				logger.Error(err, "failed to decode fetch response")
 			}
-			close(innerMessages)
 		}()
 
 		// consume all messages from one fetch response
@@ -450,6 +451,18 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			wg.Done()
 		}()
 		wg.Wait()
+
+		if c.ctx.Err() != nil {
+			return
+		}
+		// the decoder has returned. skip batches with no messages to deliver
+		if frsd.nextOffset > c.offset {
+			c.offset = frsd.nextOffset
+		}
+		if !frsd.end() && c.leaderBroker != nil {
+			// the rest of the response is still to come, the next response would be read from the middle of it
+			c.leaderBroker.Close()
+		}
 	}
 }
 
@@ -467,10 +480,15 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 		}
 		if message.Error != nil {
 			logger.Error(message.Error, "message error", "topic", c.topic, "partitionID", c.partitionID)
+			// the decoder reads the rest of the response before it closes the channel, nobody else may use the connection until then
+			for range innerMessages {
+			}
 			if os.IsTimeout(message.Error) || errors.Is(message.Error, io.EOF) || errors.Is(message.Error, syscall.EPIPE) {
 				c.leaderBroker.Close()
 			} else if message.Error == &maxBytesTooSmall {
-				c.config.FetchMaxBytes *= 2
+				if c.config.FetchMaxBytes <= math.MaxInt32/2 {
+					c.config.FetchMaxBytes *= 2
+				}
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-- 
2.43.0


From 6eeaa41f1a7d18821eb73d0eda1df77f12425c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:44 +0000
Subject: [PATCH 056/103] fix: consuming of the message formats 0 and 1

Compressed messages were compressed again instead of decompressed, relative
offsets were taken for absolute ones, messages split over two packets were
garbled, and a corrupt length crashed the process. The loop over the messages
went on into the next partition.
---
 fetch_response.go | 87 ++++++++++++++---------------------------------
 message.go        | 33 +++++++++++-------
 2 files changed, 45 insertions(+), 75 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 8b54f06..681c58a 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -128,74 +128,37 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 	return uncompressedBytes, nil
 }
 
+// decode one message (offset(int64) message_size(int32) message), which holds a whole message set if it is compressed
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topicName string, partitionID int32, magic int, header17 []byte) (offset int, err error) {
-	firstMessageSet := true
-	// value is the bytes of whole record consists of (offset(int64) message_size(int32) message)
-	var value []byte
-	for {
-		if firstMessageSet {
-			firstMessageSet = false
-
-			// messageSize doesn't include the size of messageSize itself.
-			messageSize := int(binary.BigEndian.Uint32(header17[8:]))
-			if messageSize < 6 {
-				return
-			}
-
-			// 12 is the size of offset(int64) & message_size(int32) in header17
-			value = make([]byte, 12+messageSize)
-			n, e := streamDecoder.Read(value[17:])
-			offset += n
-			if e != nil {
-				return offset, e
-			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, header17)
-		} else {
-			buf, n, err := streamDecoder.read(12)
-			offset += n
-			if err != nil {
-				return offset, err
-			}
-			if n < 12 {
-				return offset, err
-			}
-			messageSize := int(binary.BigEndian.Uint32(buf[8:]))
-			value = make([]byte, 12+messageSize)
-			n, err = streamDecoder.Read(value[12:])
-			offset += n
-			if err != nil {
-				return offset, err
-			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, buf)
-		}
+	// messageSize doesn't include the size of messageSize itself.
+	messageSize := int(int32(binary.BigEndian.Uint32(header17[8:])))
+	if messageSize < 14 {
+		return offset, fmt.Errorf("invalid message size %d", messageSize)
+	}
+	// 12 is the size of offset(int64) & message_size(int32) in header17
+	remaining := 12 + messageSize - len(header17)
+	if remaining > streamDecoder.totalLength-streamDecoder.offset {
+		// the last message is incomplete
+		return remaining, io.ErrUnexpectedEOF
+	}
+	buf, offset, err := streamDecoder.read(remaining)
+	if err != nil {
+		return offset, err
+	}
 
-		messageSet, err := DecodeToMessageSet(value)
+	messageSet, err := DecodeToMessageSet(append(header17, buf...))
+	if err != nil {
+		return offset, err
+	}
 
-		if err != nil {
+	// TODO send each message to the channel directly?
+	for i := range messageSet {
+		if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
 			return offset, err
 		}
-
-		if len(messageSet) == 0 {
-			return offset, nil
-		}
-
-		// TODO send each message to the channel directly?
-		for i := range messageSet {
-			if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
-				return offset, err
-			}
-		}
+		streamDecoder.nextOffset = messageSet[i].Offset + 1
 	}
+	return offset, nil
 }
 
 // decode one recordBatch which consists of multiple records
diff --git a/message.go b/message.go
index 5d1c319..3d6b403 100644
--- a/message.go
+++ b/message.go
@@ -1,6 +1,7 @@
 package healer
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -38,12 +39,7 @@ type Message struct {
 type MessageSet []*Message
 
 func (message *Message) decompress() ([]byte, error) {
-	compression := CompressType(message.Attributes & 0b11)
-	compressor := NewCompressor(compression.String())
-	if compressor == nil {
-		return nil, fmt.Errorf("unknown Compression Type %s", compression)
-	}
-	return compressor.Compress(message.Value)
+	return uncompress(message.Attributes&0x07, bytes.NewReader(message.Value))
 }
 
 func (messageSet *MessageSet) Length() int {
@@ -109,10 +105,16 @@ func (messageSet *MessageSet) Encode(payload []byte, offset int) int {
 // DecodeToMessageSet creates a MessageSet from a byte array.
 // MessageSet is [offset message_size message], but it only decode one message in healer generally, loops inside decodeMessageSetMagic0or1.
 // if message.Value is compressed, it will uncompress the value and returns an array of messages.
-func DecodeToMessageSet(payload []byte) (MessageSet, error) {
-	messageSet := MessageSet{}
+func DecodeToMessageSet(payload []byte) (messageSet MessageSet, err error) {
+	messageSet = MessageSet{}
 	var offset int = 0
-	var err error
+
+	// the lengths in a corrupt message must not crash the process
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("malformed message: %v", e)
+		}
+	}()
 
 	for {
 		if offset == len(payload) {
@@ -146,8 +148,7 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 		if keyLength == -1 {
 			message.Key = nil
 		} else {
-			message.Key = make([]byte, keyLength)
-			copy(message.Key, payload[offset:offset+int(keyLength)])
+			message.Key = bytes.Clone(payload[offset : offset+int(keyLength)])
 			offset += int(keyLength)
 		}
 
@@ -156,8 +157,7 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 		if valueLength == -1 {
 			message.Value = nil
 		} else {
-			message.Value = make([]byte, valueLength)
-			copy(message.Value, payload[offset:offset+int(valueLength)])
+			message.Value = bytes.Clone(payload[offset : offset+int(valueLength)])
 			offset += int(valueLength)
 		}
 		compression := CompressType(message.Attributes & 0x07)
@@ -175,6 +175,13 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				// TODO go on to next message in the messageSet?
 				return messageSet, err
 			}
+			// in magic 1 the offsets of the inner messages are relative, and the outer one is that of the last of them
+			if message.MagicByte == 1 && len(_messageSet) > 0 {
+				base := message.Offset - _messageSet[len(_messageSet)-1].Offset
+				for _, m := range _messageSet {
+					m.Offset += base
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
-- 
2.43.0


From 97085b93a4d3916b5d6f552936d8bcbc3b1d1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:10 +0000
Subject: [PATCH 057/103] fix: consumer stayed with the old leader when that
 was gone, or crashed when the new one was not reachable

---
 simple_consumer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 444f3b2..798e719 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -169,10 +169,13 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	leaderBroker, err = c.brokers.NewBroker(leaderID)
 	if err != nil {
 		// FIXME refresh metadata
-		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID, "leaderAddress", c.brokers.brokers[leaderID].address)
+		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID)
 		return err
 	}
 
+	if c.leaderBroker != nil {
+		c.leaderBroker.Close()
+	}
 	c.leaderBroker = leaderBroker
 	logger.Info("leader broker created", "leaderID", leaderID, "leaderAddress", c.leaderBroker.GetAddress(), "topic", c.topic, "partitionID", c.partitionID)
 	return nil
@@ -420,6 +423,12 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			}
 			logger.Error(err, "failed to fetch")
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			// the broker may be gone, and another one be the leader now
+			if !c.stop {
+				if err = c.getLeaderBroker(); err != nil {
+					logger.Error(err, "failed to get leader", "topic", c.topic, "partitionID", c.partitionID)
+				}
+			}
 			continue
 		}
 
@@ -496,7 +505,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				if err != nil {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
 				}
-			} else if errors.Is(message.Error, KafkaError(6)) {
+			} else if errors.Is(message.Error, KafkaError(6)) || errors.Is(message.Error, KafkaError(3)) || errors.Is(message.Error, KafkaError(5)) {
 				c.leaderBroker.Close()
 				c.leaderBroker = nil
 				for !c.stop {
-- 
2.43.0


From 54f9764d0ff45e1e3e965a0899b5a139dfaf580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:13 +0000
Subject: [PATCH 058/103] fix: failed offset lookup made the consumer commit
 the offset -1

And a consumer reading from the beginning jumped to the end, skipping all
messages, if its committed offset was out of range.
---
 simple_consumer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 798e719..691231a 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -222,6 +222,9 @@ func (c *SimpleConsumer) getOffset(fromBeginning bool) (int64, error) {
 	if err := offsetsResponse.Error(); err != nil {
 		return -1, err
 	}
+	if len(offsetsResponse.TopicPartitionOffsets[c.topic]) == 0 {
+		return -1, errors.New("partition not found in offsets response")
+	}
 	return int64(offsetsResponse.TopicPartitionOffsets[c.topic][0].GetOffset()), nil
 }
 
@@ -299,6 +302,10 @@ func (c *SimpleConsumer) Stop() {
 
 // call this when simpleConsumer NOT belong to GroupConsumer, or call BelongTo.Commit()
 func (c *SimpleConsumer) commitOffset() bool {
+	if c.offset < 0 {
+		logger.V(3).Info("invalid commit offset", "offset", c.offset)
+		return false
+	}
 	var apiVersion uint16
 	if c.config.OffsetsStorage == 1 {
 		apiVersion = 2
@@ -354,6 +361,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	c.messages = messages
 
 	c.offset = offset
+	c.fromBeginning = offset == -2
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
@@ -501,9 +509,12 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-				c.offset, err = c.getOffset(c.fromBeginning)
+				var offset int64
+				offset, err = c.getOffset(c.fromBeginning)
 				if err != nil {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+				} else {
+					c.offset = offset
 				}
 			} else if errors.Is(message.Error, KafkaError(6)) || errors.Is(message.Error, KafkaError(3)) || errors.Is(message.Error, KafkaError(5)) {
 				c.leaderBroker.Close()
-- 
2.43.0


From 0f5564e9a71f947af3436a1f2f422f868842334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:11 +0000
Subject: [PATCH 059/103] fix: stopping a consumer which looks up its committed
 offset never returned

The lookup also stayed with the old coordinator when that had moved.
---
 simple_consumer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 691231a..00cbfe2 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -256,7 +256,19 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
-			time.Sleep(500 * time.Millisecond)
+			select {
+			case <-c.ctx.Done():
+				return c.ctx.Err()
+			case <-time.After(500 * time.Millisecond):
+			}
+			if c.belongTO == nil {
+				// it may have moved. a group consumer finds the new one when its heartbeat fails
+				if err = c.getCoordinator(); err != nil {
+					logger.Error(err, "failed to get coordinator")
+				} else {
+					coordinator = c.coordinator
+				}
+			}
 			continue
 		}
 
@@ -379,7 +391,9 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	}
 
 	if c.config.GroupID != "" && (c.offset == -1 || c.offset == -2) {
-		c.getCommitedOffet()
+		if err = c.getCommitedOffet(); err != nil {
+			return messages, err
+		}
 	}
 	logger.V(3).Info("got committed offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
-- 
2.43.0


From 519ab3dd4ff9b48952e5ca32f03c7aaa1e35e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:13 +0000
Subject: [PATCH 060/103] fix: consumer with a group id committed to the old
 coordinator forever

---
 simple_consumer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simple_consumer.go b/simple_consumer.go
index 00cbfe2..ab1aa15 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -337,6 +337,12 @@ func (c *SimpleConsumer) commitOffset() bool {
 		return true
 	}
 	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	if c.ctx.Err() == nil {
+		// the coordinator may have moved, commit to the new one next time
+		if err = c.getCoordinator(); err != nil {
+			logger.Error(err, "failed to get coordinator")
+		}
+	}
 	return false
 }
 
-- 
2.43.0


From e074a625121a3c527e93dd6b6c45aabf45999faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:16 +0000
Subject: [PATCH 061/103] fix: SimpleConsumer.Stop did not wait for the last
 commit, nor for Consume, and left connections open

Stopping it twice decremented the wait group of its owner twice.
---
 simple_consumer.go | 72 +++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index ab1aa15..82ac187 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"os"
 	"sync"
+	"sync/atomic"
 	"syscall"
 	"time"
 )
@@ -26,9 +27,13 @@ type SimpleConsumer struct {
 
 	ctx           context.Context
 	cancel        context.CancelFunc
-	stop          bool
+	stop          atomic.Bool
+	stopOnce      sync.Once
 	consumeLoopWg sync.WaitGroup
 
+	lifecycle  sync.Mutex // Stop waits for a running Consume
+	ownBrokers bool       // close brokers in Stop
+
 	fromBeginning  bool
 	offset         int64
 	offsetCommited int64
@@ -61,6 +66,7 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 
 	go func() {
 		ticker := time.NewTicker(time.Second * 60 * 1)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -107,7 +113,9 @@ func NewSimpleConsumer(topic string, partitionID int32, config interface{}) (*Si
 		return nil, err
 	}
 
-	return NewSimpleConsumerWithBrokers(topic, partitionID, cfg, brokers), nil
+	c := NewSimpleConsumerWithBrokers(topic, partitionID, cfg, brokers)
+	c.ownBrokers = true
+	return c, nil
 }
 
 func (c *SimpleConsumer) refreshPartiton() error {
@@ -196,7 +204,7 @@ func (c *SimpleConsumer) initOffset() {
 		c.fromBeginning = true
 	}
 
-	for !c.stop {
+	for !c.stop.Load() {
 		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
@@ -294,22 +302,30 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 
 // Stop the consumer and wait for all relating go-routines to exit
 func (c *SimpleConsumer) Stop() {
-	logger.Info("stopping simple consumer", "topic", c.topic, "partitionID", c.partitionID)
-	c.cancel()
+	c.stopOnce.Do(func() {
+		logger.Info("stopping simple consumer", "topic", c.topic, "partitionID", c.partitionID)
+		c.cancel()
 
-	c.stop = true
+		c.stop.Store(true)
 
-	c.consumeLoopWg.Wait()
+		c.lifecycle.Lock()
+		defer c.lifecycle.Unlock()
 
-	if c.leaderBroker != nil {
-		c.leaderBroker.Close()
-	}
+		c.consumeLoopWg.Wait()
 
-	// close(c.messages)
+		if c.leaderBroker != nil {
+			c.leaderBroker.Close()
+		}
+		if c.ownBrokers {
+			c.brokers.Close()
+		}
 
-	if c.wg != nil {
-		c.wg.Done()
-	}
+		// close(c.messages)
+
+		if c.wg != nil {
+			c.wg.Done()
+		}
+	})
 }
 
 // call this when simpleConsumer NOT belong to GroupConsumer, or call BelongTo.Commit()
@@ -376,6 +392,10 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	if messageChan == nil {
 		messages = make(chan *FullMessage, 100)
 	}
+
+	c.lifecycle.Lock()
+	defer c.lifecycle.Unlock()
+
 	c.messages = messages
 
 	c.offset = offset
@@ -383,7 +403,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
-	for !c.stop {
+	for !c.stop.Load() {
 		if err = c.getLeaderBroker(); err != nil {
 			logger.Error(err, "get leader broker error", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
@@ -392,7 +412,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		}
 	}
 
-	if c.stop {
+	if c.stop.Load() {
 		return messages, nil
 	}
 
@@ -408,8 +428,11 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		logger.V(3).Info("offset after init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 	}
 
+	loopDone := make(chan struct{})
 	if c.config.AutoCommit && c.config.GroupID != "" {
+		c.consumeLoopWg.Add(1)
 		go func() {
+			defer c.consumeLoopWg.Done()
 			ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.AutoCommitIntervalMS))
 			defer ticker.Stop()
 			for {
@@ -417,6 +440,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 				case <-ticker.C:
 					c.CommitOffset()
 				case <-c.ctx.Done():
+					<-loopDone // no message is delivered after that
 					c.CommitOffset()
 					return
 				}
@@ -424,19 +448,21 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		}()
 	}
 
-	go c.consumeLoop(messages)
+	c.consumeLoopWg.Add(1)
+	go func() {
+		defer c.consumeLoopWg.Done()
+		defer close(loopDone)
+		c.consumeLoop(messages)
+	}()
 
 	return messages, nil
 }
 
 func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
-	c.consumeLoopWg.Add(1)
-	defer c.consumeLoopWg.Done()
-
 	defer logger.Info("consume loop exit", "topic", c.topic, "partitionID", c.partitionID)
 
 	wg := &sync.WaitGroup{}
-	for !c.stop {
+	for !c.stop.Load() {
 		innerMessages := make(chan *FullMessage, 100)
 
 		// fetch
@@ -452,7 +478,7 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			logger.Error(err, "failed to fetch")
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 			// the broker may be gone, and another one be the leader now
-			if !c.stop {
+			if !c.stop.Load() {
 				if err = c.getLeaderBroker(); err != nil {
 					logger.Error(err, "failed to get leader", "topic", c.topic, "partitionID", c.partitionID)
 				}
@@ -539,7 +565,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 			} else if errors.Is(message.Error, KafkaError(6)) || errors.Is(message.Error, KafkaError(3)) || errors.Is(message.Error, KafkaError(5)) {
 				c.leaderBroker.Close()
 				c.leaderBroker = nil
-				for !c.stop {
+				for !c.stop.Load() {
 					if err = c.getLeaderBroker(); err != nil {
 						logger.Error(err, "failer to get leader", "topic", c.topic, "partitionID", c.partitionID)
 						time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
-- 
2.43.0


From 2065d62dc8732422444ee7aa832f25d55688bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:18 +0000
Subject: [PATCH 062/103] fix: data races of a consumer with the commits of its
 offset and the refresh of its partition

Two commits at the same time could also commit the older offset last.
---
 simple_consumer.go | 49 +++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 82ac187..6ead0cb 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -25,6 +25,8 @@ type SimpleConsumer struct {
 	coordinator  *Broker
 	partition    PartitionMetadataInfo
 
+	partitionLock sync.Mutex
+
 	ctx           context.Context
 	cancel        context.CancelFunc
 	stop          atomic.Bool
@@ -35,8 +37,9 @@ type SimpleConsumer struct {
 	ownBrokers bool       // close brokers in Stop
 
 	fromBeginning  bool
-	offset         int64
+	offset         int64 // read by the commits in other goroutines
 	offsetCommited int64
+	commitLock     sync.Mutex
 
 	messages chan *FullMessage
 
@@ -129,7 +132,9 @@ func (c *SimpleConsumer) refreshPartiton() error {
 		}
 		for _, p := range topic.PartitionMetadatas {
 			if p.PartitionID == c.partitionID {
+				c.partitionLock.Lock()
 				c.partition = *p
+				c.partitionLock.Unlock()
 				return nil
 			}
 		}
@@ -205,10 +210,12 @@ func (c *SimpleConsumer) initOffset() {
 	}
 
 	for !c.stop.Load() {
-		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
+		var offset int64
+		if offset, err = c.getOffset(c.fromBeginning); err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 		} else {
+			atomic.StoreInt64(&c.offset, offset)
 			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 			break
 		}
@@ -291,7 +298,7 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		for _, p := range t.Partitions {
 			if int32(p.PartitionID) == c.partitionID {
 				if p.Offset >= 0 {
-					c.offset = p.Offset
+					atomic.StoreInt64(&c.offset, p.Offset)
 				}
 				break
 			}
@@ -329,9 +336,9 @@ func (c *SimpleConsumer) Stop() {
 }
 
 // call this when simpleConsumer NOT belong to GroupConsumer, or call BelongTo.Commit()
-func (c *SimpleConsumer) commitOffset() bool {
-	if c.offset < 0 {
-		logger.V(3).Info("invalid commit offset", "offset", c.offset)
+func (c *SimpleConsumer) commitOffset(offset int64) bool {
+	if offset < 0 {
+		logger.V(3).Info("invalid commit offset", "offset", offset)
 		return false
 	}
 	var apiVersion uint16
@@ -345,14 +352,14 @@ func (c *SimpleConsumer) commitOffset() bool {
 	offsetComimtReq.SetMemberID("")
 	offsetComimtReq.SetGenerationID(-1)
 	offsetComimtReq.SetRetentionTime(-1)
-	offsetComimtReq.AddPartiton(c.topic, c.partitionID, c.offset, "")
+	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
 	if err == nil {
-		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 		return true
 	}
-	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 	if c.ctx.Err() == nil {
 		// the coordinator may have moved, commit to the new one next time
 		if err = c.getCoordinator(); err != nil {
@@ -366,17 +373,20 @@ func (c *SimpleConsumer) commitOffset() bool {
 // if simpleConsumer belong to a GroupConsumer, it uses groupconsumer to commit
 // else if it has GroupId, it use its own coordinator to commit
 func (c *SimpleConsumer) CommitOffset() {
-	if c.offset == c.offsetCommited {
-		logger.V(3).Info("current offset does not change, skip committing", "offset", c.offset, "topic", c.topic, "partitionID", c.partitionID)
+	c.commitLock.Lock()
+	defer c.commitLock.Unlock()
+
+	offset := atomic.LoadInt64(&c.offset)
+	if offset == c.offsetCommited {
+		logger.V(3).Info("current offset does not change, skip committing", "offset", offset, "topic", c.topic, "partitionID", c.partitionID)
 		return
 	}
-	offset := c.offset
 	if c.belongTO != nil {
 		if c.belongTO.commitOffset(c.topic, c.partitionID, offset) {
 			c.offsetCommited = offset
 		}
 	} else if c.config.GroupID != "" {
-		if c.commitOffset() {
+		if c.commitOffset(offset) {
 			c.offsetCommited = offset
 		}
 	}
@@ -398,7 +408,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 
 	c.messages = messages
 
-	c.offset = offset
+	atomic.StoreInt64(&c.offset, offset)
 	c.fromBeginning = offset == -2
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
@@ -468,7 +478,10 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		// fetch
 		logger.V(5).Info("send fetch request", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 		r := NewFetchRequest(c.config.ClientID, c.config.FetchMaxWaitMS, c.config.FetchMinBytes)
-		r.addPartition(c.topic, c.partitionID, c.offset, c.config.FetchMaxBytes, c.partition.LeaderEpoch)
+		c.partitionLock.Lock()
+		leaderEpoch := c.partition.LeaderEpoch
+		c.partitionLock.Unlock()
+		r.addPartition(c.topic, c.partitionID, c.offset, c.config.FetchMaxBytes, leaderEpoch)
 
 		reader, responseLength, err := c.leaderBroker.requestFetchStreamingly(r)
 		if err != nil {
@@ -520,7 +533,7 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		}
 		// the decoder has returned. skip batches with no messages to deliver
 		if frsd.nextOffset > c.offset {
-			c.offset = frsd.nextOffset
+			atomic.StoreInt64(&c.offset, frsd.nextOffset)
 		}
 		if !frsd.end() && c.leaderBroker != nil {
 			// the rest of the response is still to come, the next response would be read from the middle of it
@@ -560,7 +573,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				if err != nil {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
 				} else {
-					c.offset = offset
+					atomic.StoreInt64(&c.offset, offset)
 				}
 			} else if errors.Is(message.Error, KafkaError(6)) || errors.Is(message.Error, KafkaError(3)) || errors.Is(message.Error, KafkaError(5)) {
 				c.leaderBroker.Close()
@@ -582,7 +595,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 			case <-c.ctx.Done():
 				return c.ctx.Err()
 			case messages <- message:
-				c.offset = message.Message.Offset + 1
+				atomic.StoreInt64(&c.offset, message.Message.Offset+1)
 			}
 		}
 	}
-- 
2.43.0


From ec99db1f2e605ace760f63eae352c6f747f22430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:35 +0000
Subject: [PATCH 063/103] fix: data races and the close of a group consumer

Closing it twice never returned, closing it while it was joining ended in a
panic (negative wait group counter) or left consumers and connections behind,
and the heartbeat and refresh goroutines went on after the close.
---
 group_consumer.go  | 208 ++++++++++++++++++++++++++++++++-------------
 simple_consumer.go |   2 +-
 2 files changed, 150 insertions(+), 60 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 98c927a..eb742ba 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -29,9 +30,10 @@ type GroupConsumer struct {
 	members              []Member        // maybe some members consume other topics , but they are in the same group
 	topicMetadatas       []TopicMetadata // may contain some other topics which are consumed by other process with the same group
 	ifLeader             bool
-	joined               bool
-	closed               bool
+	joined               atomic.Bool
+	closed               atomic.Bool
 	closeChan            chan bool
+	closeOnce            sync.Once
 	coordinatorAvailable bool
 	topics               []string
 	partitionAssignments []*PartitionAssignment
@@ -44,6 +46,9 @@ type GroupConsumer struct {
 	assignmentStrategy AssignmentStrategy
 
 	restartLocker sync.Locker
+
+	stateLock  sync.RWMutex   // guards what join and sync set: coordinator, memberID, simpleConsumers and so on
+	background sync.WaitGroup // goroutines that Close waits for
 }
 
 // NewGroupConsumer cretae a new GroupConsumer
@@ -82,10 +87,9 @@ func NewGroupConsumer(topic string, config interface{}) (*GroupConsumer, error)
 		mutex:              &sync.Mutex{},
 		assignmentStrategy: &rangeAssignmentStrategy{},
 
-		joined:               false,
 		coordinatorAvailable: false,
 
-		closeChan: make(chan bool, 1),
+		closeChan: make(chan bool),
 
 		restartLocker: &sync.Mutex{},
 	}
@@ -108,11 +112,14 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 		}
 	}
 
-	c.topics = []string{}
+	topics := []string{}
 	for t := range _topics {
-		c.topics = append(c.topics, t)
+		topics = append(topics, t)
 	}
-	for !c.closed {
+	c.stateLock.Lock()
+	c.topics = topics
+	c.stateLock.Unlock()
+	for !c.closed.Load() {
 		metaDataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, c.topics)
 		if err == nil {
 			break
@@ -124,7 +131,9 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 
 	b, _ := json.Marshal(metaDataResponse)
 	logger.Info("got metadata", "topics", c.topics, "metadata", b)
+	c.stateLock.Lock()
 	c.topicMetadatas = metaDataResponse.TopicMetadatas
+	c.stateLock.Unlock()
 }
 
 // TODO getCoordinator may executed in dead loop and create too many connections to kafka clusters
@@ -140,11 +149,25 @@ func (c *GroupConsumer) getCoordinator() error {
 		return err
 	}
 	logger.Info("create coordinator", "groupId", c.config.GroupID, "address", coordinatorBroker.address)
+	c.stateLock.Lock()
 	c.coordinator = coordinatorBroker
+	c.stateLock.Unlock()
 
 	return nil
 }
 
+func (c *GroupConsumer) setMemberID(memberID string) {
+	c.stateLock.Lock()
+	c.memberID = memberID
+	c.stateLock.Unlock()
+}
+
+func (c *GroupConsumer) membership() (coordinator *Broker, generationID int32, memberID string) {
+	c.stateLock.RLock()
+	defer c.stateLock.RUnlock()
+	return c.coordinator, c.generationID, c.memberID
+}
+
 func (c *GroupConsumer) parseGroupAssignments(memberAssignmentPayload []byte) error {
 	memberAssignment, err := NewMemberAssignment(memberAssignmentPayload)
 	if err != nil {
@@ -153,17 +176,19 @@ func (c *GroupConsumer) parseGroupAssignments(memberAssignmentPayload []byte) er
 	b, _ := json.Marshal(memberAssignment)
 	logger.Info("parse memeber assignment", "assignment", b)
 	c.partitionAssignments = memberAssignment.PartitionAssignments
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	simpleConsumers := make([]*SimpleConsumer, 0)
 
 	for _, partitionAssignment := range c.partitionAssignments {
 		for _, partitionID := range partitionAssignment.Partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(partitionAssignment.Topic, partitionID, c.config, c.brokers)
 			simpleConsumer.belongTO = c
-			simpleConsumer.wg = &c.wg
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
 
+	c.stateLock.Lock()
+	c.simpleConsumers = simpleConsumers
+	c.stateLock.Unlock()
 	return nil
 }
 
@@ -188,7 +213,7 @@ func (c *GroupConsumer) join() error {
 		logger.Error(err, "join group failed", "groupId", c.config.GroupID)
 
 		if errors.Is(err, KafkaError(25)) {
-			c.memberID = ""
+			c.setMemberID("")
 		}
 
 		if errors.Is(err, io.EOF) || errors.Is(err, KafkaError(15)) || errors.Is(err, KafkaError(16)) {
@@ -209,6 +234,8 @@ func (c *GroupConsumer) join() error {
 		return err
 	}
 
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
 	c.generationID = joinGroupResponse.GenerationID
 	c.memberID = joinGroupResponse.MemberID
 	logger.Info("got new memberID after (re)join", "memberId", c.memberID)
@@ -246,7 +273,7 @@ func (c *GroupConsumer) sync() error {
 			c.coordinatorAvailable = false
 		}
 		if errors.Is(err, KafkaError(25)) {
-			c.memberID = ""
+			c.setMemberID("")
 		}
 		return err
 	}
@@ -261,7 +288,7 @@ func (c *GroupConsumer) sync() error {
 
 func (c *GroupConsumer) joinAndSync() error {
 	var err error
-	for !c.closed {
+	for !c.closed.Load() {
 		if !c.coordinatorAvailable {
 			err = c.getCoordinator()
 			if err != nil {
@@ -272,13 +299,13 @@ func (c *GroupConsumer) joinAndSync() error {
 		}
 		c.coordinatorAvailable = true
 
-		if c.closed {
+		if c.closed.Load() {
 			return nil
 		}
 
 		err = c.join()
 
-		if c.closed {
+		if c.closed.Load() {
 			return nil
 		}
 
@@ -308,24 +335,29 @@ func (c *GroupConsumer) heartbeat() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.joined {
+	if !c.joined.Load() {
 		return nil
 	}
 
-	logger.V(5).Info("heartbeat", "generationID", c.generationID, "memberID", c.memberID)
-	_, err := c.coordinator.requestHeartbeat(c.config.ClientID, c.config.GroupID, c.generationID, c.memberID)
+	coordinator, generationID, memberID := c.membership()
+	logger.V(5).Info("heartbeat", "generationID", generationID, "memberID", memberID)
+	_, err := coordinator.requestHeartbeat(c.config.ClientID, c.config.GroupID, generationID, memberID)
 	return err
 }
 
 // CommitOffset commit offset to kafka server
 func (c *GroupConsumer) CommitOffset() {
-	for _, s := range c.simpleConsumers {
+	c.stateLock.RLock()
+	simpleConsumers := c.simpleConsumers
+	c.stateLock.RUnlock()
+	for _, s := range simpleConsumers {
 		s.CommitOffset()
 	}
 }
 
 func (c *GroupConsumer) commitOffset(topic string, partitionID int32, offset int64) bool {
-	if c.memberID == "" {
+	coordinator, generationID, memberID := c.membership()
+	if memberID == "" {
 		logger.V(3).Info("do not commit offset because memberID is empty now", "topic", topic, "partitionID", partitionID, "offset", offset)
 		return false
 	}
@@ -340,20 +372,20 @@ func (c *GroupConsumer) commitOffset(topic string, partitionID int32, offset int
 		apiVersion = 0
 	}
 	offsetComimtReq := NewOffsetCommitRequest(apiVersion, c.config.ClientID, c.config.GroupID)
-	offsetComimtReq.SetMemberID(c.memberID)
-	offsetComimtReq.SetGenerationID(c.generationID)
+	offsetComimtReq.SetMemberID(memberID)
+	offsetComimtReq.SetGenerationID(generationID)
 	offsetComimtReq.SetRetentionTime(-1)
 	offsetComimtReq.AddPartiton(topic, partitionID, offset, "")
 
-	resp, err := c.coordinator.RequestAndGet(offsetComimtReq)
+	resp, err := coordinator.RequestAndGet(offsetComimtReq)
 	if err == nil {
 		err = resp.Error()
 	}
 	if err == nil {
-		logger.V(3).Info("offset committed", "memberID", c.memberID, "generationID", c.generationID, "topic", topic, "partitionID", partitionID, "offset", offset)
+		logger.V(3).Info("offset committed", "memberID", memberID, "generationID", generationID, "topic", topic, "partitionID", partitionID, "offset", offset)
 		return true
 	}
-	logger.Error(err, "commit offset failed", "memberID", c.memberID, "generationID", c.generationID, "topic", topic, "partitionID", partitionID, "offset", offset)
+	logger.Error(err, "commit offset failed", "memberID", memberID, "generationID", generationID, "topic", topic, "partitionID", partitionID, "offset", offset)
 	return false
 }
 
@@ -364,7 +396,10 @@ func (c *GroupConsumer) restart() {
 
 	c.stop()
 	// stop heartbeat
-	c.joined = false
+	c.joined.Store(false)
+	if c.closed.Load() {
+		return
+	}
 	c.consumeWithoutHeartBeat(c.config.FromBeginning)
 
 }
@@ -373,31 +408,34 @@ func (c *GroupConsumer) stop() {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	logger.Info("stop group consumer", "GroupID", c.config.GroupID, "simpleConsumerCount", len(c.simpleConsumers))
-	if c.simpleConsumers != nil {
-		for _, simpleConsumer := range c.simpleConsumers {
-			logger.Info("stop simple consumer", "topic", simpleConsumer.topic, "partitionID", simpleConsumer.partitionID)
-			simpleConsumer.Stop()
-		}
-	}
+	c.stateLock.Lock()
+	simpleConsumers := c.simpleConsumers
 	c.simpleConsumers = nil
+	c.stateLock.Unlock()
+
+	logger.Info("stop group consumer", "GroupID", c.config.GroupID, "simpleConsumerCount", len(simpleConsumers))
+	for _, simpleConsumer := range simpleConsumers {
+		logger.Info("stop simple consumer", "topic", simpleConsumer.topic, "partitionID", simpleConsumer.partitionID)
+		simpleConsumer.Stop()
+	}
 
 	c.wg.Wait()
 }
 
 func (c *GroupConsumer) leave() {
-	if !c.joined {
+	if !c.joined.Load() {
 		logger.Info("not joined yet, leave directly")
 		return
 	}
-	logger.Info("group consumer leaves", "memberID", c.memberID, "GroupID", c.config.GroupID)
-	if _, err := c.coordinator.requestLeaveGroup(c.config.ClientID, c.config.GroupID, c.memberID); err != nil {
-		logger.Error(err, "leave group failed", "groupID", c.config.GroupID, "memberID", c.memberID)
+	coordinator, _, memberID := c.membership()
+	logger.Info("group consumer leaves", "memberID", memberID, "GroupID", c.config.GroupID)
+	if _, err := coordinator.requestLeaveGroup(c.config.ClientID, c.config.GroupID, memberID); err != nil {
+		logger.Error(err, "leave group failed", "groupID", c.config.GroupID, "memberID", memberID)
 		return
 	}
 
-	c.memberID = ""
-	c.joined = false
+	c.setMemberID("")
+	c.joined.Store(false)
 }
 
 // Close will wait all simple consumers stop and then return
@@ -409,14 +447,33 @@ func (c *GroupConsumer) Close() {
 // AwaitClose will wait all simple consumers stop and then return
 // or timeout and return after some time
 func (c *GroupConsumer) AwaitClose(timeout time.Duration) {
-	defer c.brokers.Close()
+	c.closeOnce.Do(func() { c.awaitClose(timeout) })
+}
+
+func (c *GroupConsumer) awaitClose(timeout time.Duration) {
+	defer func() {
+		// this ends the pending requests of the background goroutines
+		c.brokers.Close()
+
+		finished := make(chan struct{})
+		go func() {
+			c.background.Wait()
+			// one of them may have opened a connection again
+			c.brokers.Close()
+			close(finished)
+		}()
+		select {
+		case <-finished:
+		case <-time.After(timeout):
+		}
+	}()
 
-	c.closed = true
-	c.closeChan <- true
+	c.closed.Store(true)
+	close(c.closeChan)
 
 	c.stop()
 
-	done := make(chan bool)
+	done := make(chan bool, 1)
 	go func() {
 		c.wg.Wait()
 		done <- true
@@ -437,25 +494,36 @@ func (c *GroupConsumer) refreshMeta() {
 	var (
 		ticker *time.Ticker = time.NewTicker(time.Millisecond * time.Duration(c.config.MetadataMaxAgeMS))
 	)
-	for range ticker.C {
-		if c.closed {
+	defer ticker.Stop()
+	for {
+		select {
+		case <-c.closeChan:
 			return
+		case <-ticker.C:
 		}
-		if !c.ifLeader {
+		if c.closed.Load() {
+			return
+		}
+		c.stateLock.RLock()
+		ifLeader, topics, topicMetadatas := c.ifLeader, c.topics, c.topicMetadatas
+		c.stateLock.RUnlock()
+		if !ifLeader {
 			continue
 		}
 
 		logger.Info("refresh metadata (in goroutine)")
 
-		metaDataResponse, err := c.brokers.RequestMetaData(c.config.ClientID, c.topics)
+		metaDataResponse, err := c.brokers.RequestMetaData(c.config.ClientID, topics)
 		if err != nil {
 			logger.Error(err, "request metadata (in goroutine) failed")
 			continue
 		}
 
-		if !ifTopicMetadatasSame(c.topicMetadatas, metaDataResponse.TopicMetadatas) {
+		if !ifTopicMetadatasSame(topicMetadatas, metaDataResponse.TopicMetadatas) {
 			logger.Info("metadata changed, restart group consumer")
+			c.stateLock.Lock()
 			c.topicMetadatas = metaDataResponse.TopicMetadatas
+			c.stateLock.Unlock()
 			c.restart()
 		}
 	}
@@ -464,22 +532,28 @@ func (c *GroupConsumer) refreshMeta() {
 // Consume will join group and then cosumes messages from kafka.
 // it return a chan, and client could get messages from the chan
 func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage, error) {
-	c.closed = false
-
 	if messages == nil {
 		messages = make(chan *FullMessage, 100)
 	}
 	c.messages = messages
 
 	// go heartbeat
-	ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.SessionTimeoutMS) / 10)
+	c.background.Add(2)
 	go func() {
-		for range ticker.C {
-			if c.closed {
+		defer c.background.Done()
+		ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.SessionTimeoutMS) / 10)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-c.closeChan:
+				return
+			case <-ticker.C:
+			}
+			if c.closed.Load() {
 				return
 			}
 			err := c.heartbeat()
-			if err != nil {
+			if err != nil && !c.closed.Load() {
 				logger.Error(err, "failed to send heartbeat, restarts")
 				c.restart()
 			}
@@ -487,10 +561,13 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 	}()
 
 	go func() {
+		defer c.background.Done()
 		logger.Info("start metadata refresh goroutine", "interval", c.config.MetadataMaxAgeMS)
 		c.refreshMeta()
 	}()
 
+	c.restartLocker.Lock()
+	defer c.restartLocker.Unlock()
 	return c.consumeWithoutHeartBeat(c.config.FromBeginning)
 }
 
@@ -500,11 +577,12 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 	it should wait all simple consumers stoped */
 	c.wg.Wait()
 
-	var err error
 	joinedChan := make(chan bool, 1)
+	c.background.Add(1)
 	go func() {
-		for !c.closed {
-			err = c.joinAndSync()
+		defer c.background.Done()
+		for !c.closed.Load() {
+			err := c.joinAndSync()
 			if err == nil {
 				break
 			} else {
@@ -512,6 +590,9 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 			}
 		}
 		joinedChan <- true
+		if c.closed.Load() {
+			c.stop() // Close may have been called before the consumers were there
+		}
 	}()
 
 	select {
@@ -520,10 +601,18 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 	case <-joinedChan:
 	}
 
-	c.joined = true
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.closed.Load() {
+		return c.messages, nil
+	}
+	c.joined.Store(true)
 
 	// consume
-	for _, simpleConsumer := range c.simpleConsumers {
+	c.stateLock.RLock()
+	simpleConsumers := c.simpleConsumers
+	c.stateLock.RUnlock()
+	for _, simpleConsumer := range simpleConsumers {
 		var offset int64
 		if fromBeginning {
 			offset = -2
@@ -532,6 +621,7 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 		}
 
 		c.wg.Add(1)
+		simpleConsumer.wg = &c.wg
 
 		go simpleConsumer.Consume(offset, c.messages)
 	}
diff --git a/simple_consumer.go b/simple_consumer.go
index 6ead0cb..e6ce9c2 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -262,7 +262,7 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 	)
 
 	if c.belongTO != nil {
-		coordinator = c.belongTO.coordinator
+		coordinator, _, _ = c.belongTO.membership()
 	} else {
 		coordinator = c.coordinator
 	}
-- 
2.43.0


From a7942fb171329150f79a9e3ee42bd7f239c643c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:37 +0000
Subject: [PATCH 064/103] fix: consumer without group id waited for a group
 coordinator

With a group id it is looked up when the simple consumer is created.
---
 consumer.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/consumer.go b/consumer.go
index 9b72442..31b5ef7 100644
--- a/consumer.go
+++ b/consumer.go
@@ -107,15 +107,6 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
 			simpleConsumer.wg = &c.wg
 
-			for {
-				err := simpleConsumer.getCoordinator()
-				if err != nil {
-					logger.Error(err, "get coordinator failed")
-					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
-					continue
-				}
-				break
-			}
 			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
 		}
 	}
-- 
2.43.0


From a9ae0525a8503229a05deed6170decaca45ee348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 065/103] fix: data races between Consume and AwaitClose of a
 consumer

---
 consumer.go | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/consumer.go b/consumer.go
index 31b5ef7..1c27dab 100644
--- a/consumer.go
+++ b/consumer.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -11,7 +12,8 @@ type Consumer struct {
 	config ConsumerConfig
 
 	brokers *Brokers
-	closed  bool
+	closed  atomic.Bool
+	lock    sync.Mutex // guards simpleConsumers
 
 	simpleConsumers []*SimpleConsumer
 	wg              sync.WaitGroup // wg is used to tell if all consumer has already stopped
@@ -78,7 +80,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		topics = append(topics, topicName)
 	}
 
-	for !c.closed {
+	for !c.closed.Load() {
 		if metadataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics); err != nil {
 			logger.Error(err, "get metadata failed", "topics", topics)
 			time.Sleep(time.Millisecond * 1000)
@@ -86,11 +88,11 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 			break
 		}
 	}
-	if c.closed {
+	if c.closed.Load() {
 		return nil, nil
 	}
 
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	simpleConsumers := make([]*SimpleConsumer, 0)
 
 	for _, topicMetadatas := range metadataResponse.TopicMetadatas {
 		topicName := topicMetadatas.TopicName
@@ -105,13 +107,11 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 
 		for _, p := range partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
-			simpleConsumer.wg = &c.wg
-
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
 
-	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(c.simpleConsumers), "consumers", c.simpleConsumers)
+	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(simpleConsumers), "consumers", simpleConsumers)
 
 	var offset int64
 	if c.config.FromBeginning {
@@ -120,8 +120,22 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		offset = -1
 	}
 
-	for _, simpleConsumer := range c.simpleConsumers {
+	c.lock.Lock()
+	if c.closed.Load() {
+		c.lock.Unlock()
+		for _, simpleConsumer := range simpleConsumers {
+			simpleConsumer.Stop()
+		}
+		return nil, nil
+	}
+	c.simpleConsumers = simpleConsumers
+	for _, simpleConsumer := range simpleConsumers {
 		c.wg.Add(1)
+		simpleConsumer.wg = &c.wg
+	}
+	c.lock.Unlock()
+
+	for _, simpleConsumer := range simpleConsumers {
 		simpleConsumer.Consume(offset, messages)
 	}
 
@@ -129,16 +143,17 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 }
 
 func (c *Consumer) stop() {
-	c.closed = true
-	if c.simpleConsumers != nil {
-		for _, simpleConsumer := range c.simpleConsumers {
-			simpleConsumer.Stop()
-		}
+	c.lock.Lock()
+	c.closed.Store(true)
+	simpleConsumers := c.simpleConsumers
+	c.lock.Unlock()
+	for _, simpleConsumer := range simpleConsumers {
+		simpleConsumer.Stop()
 	}
 }
 
 func (consumer *Consumer) AwaitClose(timeout time.Duration) {
-	c := make(chan bool)
+	c := make(chan bool, 1)
 	defer func() {
 		select {
 		case <-c:
-- 
2.43.0


From 0a40f8c3591120eb527cf5291beaf34c93e6ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:26 +0000
Subject: [PATCH 066/103] fix: consumer config changed the default config, and
 paniced with a short timeout.ms.for.eachapi

---
 config.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index 1e0cc76..71fb368 100644
--- a/config.go
+++ b/config.go
@@ -133,9 +133,8 @@ func DefaultConsumerConfig() ConsumerConfig {
 }
 
 func (c *ConsumerConfig) resetTimeoutMSForEachAPI() {
-	if len(c.Net.TimeoutMSForEachAPI) == 0 {
-		c.Net.TimeoutMSForEachAPI = make([]int, 68)
-	}
+	// never write to the slice of the default config, or of the caller
+	c.Net.TimeoutMSForEachAPI = make([]int, max(68, len(c.Net.TimeoutMSForEachAPI)))
 	for i := range c.Net.TimeoutMSForEachAPI {
 		c.Net.TimeoutMSForEachAPI[i] = c.Net.TimeoutMS
 	}
@@ -158,6 +157,7 @@ func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
 		return defaultConsumerConfig, nil
 	case map[string]interface{}:
 		c = defaultConsumerConfig
+		c.Net.TimeoutMSForEachAPI = nil
 		if err := mapstructure.WeakDecode(config, &c); err != nil {
 			return defaultConsumerConfig, fmt.Errorf("decode consumer config error: %w", err)
 		}
@@ -268,6 +268,7 @@ func createProducerConfig(config interface{}) (c ProducerConfig, err error) {
 		return defaultProducerConfig, nil
 	case map[string]interface{}:
 		c = defaultProducerConfig
+		c.Net.TimeoutMSForEachAPI = nil
 		if err := mapstructure.WeakDecode(config, &c); err != nil {
 			return defaultProducerConfig, fmt.Errorf("decode producer config error: %w", err)
 		}
-- 
2.43.0


From 8b08c33bfbbda0a8b260343dcc5eb406adeee471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:28 +0000
Subject: [PATCH 067/103] fix: length of nullable bytes was not encoded

---
 primitive_type_encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primitive_type_encode.go b/primitive_type_encode.go
index 4361c3b..d70709b 100644
--- a/primitive_type_encode.go
+++ b/primitive_type_encode.go
@@ -116,7 +116,7 @@ func encodeNullableBytes(s []byte) []byte {
 		return binary.BigEndian.AppendUint32(nil, 0xFFFFFFFF)
 	}
 	payload := make([]byte, len(s)+4)
-	binary.BigEndian.AppendUint32(payload, uint32(len(s)))
+	binary.BigEndian.PutUint32(payload, uint32(len(s)))
 	offset := copy(payload[4:], s)
 	return payload[:4+offset]
 }
-- 
2.43.0


From cbd41cdcea7a69ac17b90489e88222772ffa26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 068/103] fix: UNKNOWN acl operation and permission type were
 parsed as ANY

---
 acl_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index 65aa854..f99257e 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -182,7 +182,7 @@ func (o AclsOperation) MarshalText() ([]byte, error) {
 func (o *AclsOperation) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*o = AclsOperationAny
+		*o = AclsOperationUnknown
 	case "ANY", "1":
 		*o = AclsOperationAny
 	case "ALL", "2":
@@ -245,7 +245,7 @@ func (p AclsPermissionType) MarshalText() ([]byte, error) {
 func (p *AclsPermissionType) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*p = AclsPermissionTypeAny
+		*p = AclsPermissionTypeUnkown
 	case "ANY", "1":
 		*p = AclsPermissionTypeAny
 	case "DENY", "2":
-- 
2.43.0


From a20e31fadfd468862ebf2718c5d375ebd2eb35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:54 +0000
Subject: [PATCH 069/103] fix: http api went on after an error, pending was
 reported without the offsets

---
 command/healer/cmd/apicontrollers/describe-logdirs.go      | 2 ++
 command/healer/cmd/apicontrollers/group.go                 | 7 +++++++
 .../healer/cmd/apicontrollers/partition-reassignments.go   | 1 +
 command/healer/cmd/apicontrollers/topic.go                 | 2 ++
 4 files changed, 12 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index feb0b1e..a675717 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -24,6 +24,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	clientReq := struct {
@@ -37,6 +38,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	responses, err := admin.DescribeLogDirs(clientReq.Topics)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	c.JSON(http.StatusOK, responses)
diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 5023fd3..5bd3766 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -52,16 +52,19 @@ func DescribeGroups(c *gin.Context, client string) {
 	brokers, err := healer.NewBrokers(bootstrapServers)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinator, err := brokers.GetBroker(coordinatorResponse.Coordinator.NodeID)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	klog.Infof("coordinator for group[%s]:%s", group, coordinator.GetAddress())
@@ -70,6 +73,7 @@ func DescribeGroups(c *gin.Context, client string) {
 	resp, err := coordinator.RequestAndGet(req)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	groups := resp.(healer.DescribeGroupsResponse).Groups
@@ -164,12 +168,15 @@ func GetPending(c *gin.Context, client string) {
 
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer bs.Close()
 
 	offsets, err := getOffset(bs, topicName, client)
 	if err != nil {
 		klog.Errorf("get offsets error: %s", err)
+		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	partitions, err := getPartitions(bs, topicName, client)
diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index 5a911be..cdada7e 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -47,6 +47,7 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer admin.Close()
 
diff --git a/command/healer/cmd/apicontrollers/topic.go b/command/healer/cmd/apicontrollers/topic.go
index 27cfd8f..729d779 100644
--- a/command/healer/cmd/apicontrollers/topic.go
+++ b/command/healer/cmd/apicontrollers/topic.go
@@ -45,6 +45,7 @@ func GetTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
@@ -85,6 +86,7 @@ func AlterTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
-- 
2.43.0


From 657c7af1d28d6c8ac1f923007a3bed9dd6d0eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:56 +0000
Subject: [PATCH 070/103] fix: http api leaked the connections of some requests

---
 command/healer/cmd/apicontrollers/describe-logdirs.go | 1 +
 command/healer/cmd/apicontrollers/group.go            | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index a675717..8bf4977 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -26,6 +26,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 		c.String(http.StatusInternalServerError, err.Error())
 		return
 	}
+	defer admin.Close()
 
 	clientReq := struct {
 		Topics []string `json:"topics"`
diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 5bd3766..6415a5f 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -25,6 +25,7 @@ func ListGroups(c *gin.Context, clientID string) {
 		c.String(http.StatusInternalServerError, err.Error())
 		return
 	}
+	defer client.Close()
 
 	groups, err := client.ListGroups()
 	if err != nil {
@@ -54,6 +55,7 @@ func DescribeGroups(c *gin.Context, client string) {
 		c.String(http.StatusInternalServerError, err.Error())
 		return
 	}
+	defer brokers.Close()
 
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
-- 
2.43.0


From c6e640286dd1dded95eab1249a4d0c187427b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:57 +0000
Subject: [PATCH 071/103] fix: reset-offset committed the offset -1, and
 ignored the storage of the offsets

---
 command/healer/cmd/reset-offset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/reset-offset.go b/command/healer/cmd/reset-offset.go
index a1f1269..dfbc4cb 100644
--- a/command/healer/cmd/reset-offset.go
+++ b/command/healer/cmd/reset-offset.go
@@ -18,7 +18,7 @@ var resetOffsetCmd = &cobra.Command{
 		topic, err := cmd.Flags().GetString("topic")
 		partitions, err := cmd.Flags().GetInt32Slice("partitions")
 		group, err := cmd.Flags().GetString("group")
-		offsetsStorage, err := cmd.Flags().GetString("offset.storage")
+		offsetsStorage, err := cmd.Flags().GetString("offsets.storage")
 		timestamp, err := cmd.Flags().GetInt64("timestamp")
 
 		userCustomPartitions := make(map[int32]struct{})
@@ -90,6 +90,9 @@ var resetOffsetCmd = &cobra.Command{
 					continue
 				}
 			}
+			if offset < 0 {
+				return fmt.Errorf("no offset found for timestamp %d in %s-%d", timestamp, topic, partitionID)
+			}
 			offsetComimtReq.AddPartiton(topic, partitionID, offset, "")
 			klog.Infof("commit offset [%s][%d]:%d", topic, partitionID, offset)
 		}
-- 
2.43.0


From cb96b9baf2b55bd11a6fdfd37aa47f4e75acd6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:15 +0000
Subject: [PATCH 072/103] fix: name of the error codes 118 and 119

---
 errorcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errorcode.go b/errorcode.go
index a2324c3..5235fd7 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -766,7 +766,7 @@ func init() {
 		Retriable: false,
 		ErrorDesc: "Client sent a push telemetry request larger than the maximum size the broker will accept.",
 	}
-	AllError[118] = &Error{
+	AllError[119] = &Error{
 		ErrorMsg:  "INVALID_REGISTRATION",
 		ErrorCode: 119,
 		Retriable: false,
-- 
2.43.0


From 448d289cedcd091f627b22cc891611d5259ff7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:18 +0000
Subject: [PATCH 073/103] fix: AddReplicaAssignment did not overwrite the
 replicas of a partition

---
 create_topics_request.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/create_topics_request.go b/create_topics_request.go
index ee854e9..e3337e6 100644
--- a/create_topics_request.go
+++ b/create_topics_request.go
@@ -185,10 +185,6 @@ func (r *CreateTopicsRequest) AddReplicaAssignment(topic string, pid int32, repl
 
 	found = false
 	for _, ra := range rr.ReplicaAssignments {
-		if ra.Partition >= pid {
-			return errorPidOutOfRange
-		}
-
 		if ra.Partition == pid {
 			found = true
 			ra.Replicas = replicas
-- 
2.43.0


From 8fb03ba1e7645d8980a5a1f9877915f980eef3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:04 +0000
Subject: [PATCH 074/103] fix: group consumer closed during a rebalance stayed
 a member, or assigned nothing to the others

---
 group_consumer.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index eb742ba..caf0175 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -255,6 +255,9 @@ func (c *GroupConsumer) sync() error {
 	var groupAssignment GroupAssignment
 	if c.ifLeader {
 		c.getTopicPartitionInfo()
+		if c.closed.Load() {
+			return errors.New("group consumer is closed")
+		}
 		groupAssignment = c.assignmentStrategy.Assign(c.members, c.topicMetadatas)
 	} else {
 		groupAssignment = nil
@@ -423,11 +426,12 @@ func (c *GroupConsumer) stop() {
 }
 
 func (c *GroupConsumer) leave() {
-	if !c.joined.Load() {
+	// it is a member even if it is about to join again
+	coordinator, _, memberID := c.membership()
+	if memberID == "" {
 		logger.Info("not joined yet, leave directly")
 		return
 	}
-	coordinator, _, memberID := c.membership()
 	logger.Info("group consumer leaves", "memberID", memberID, "GroupID", c.config.GroupID)
 	if _, err := coordinator.requestLeaveGroup(c.config.ClientID, c.config.GroupID, memberID); err != nil {
 		logger.Error(err, "leave group failed", "groupID", c.config.GroupID, "memberID", memberID)
@@ -476,18 +480,16 @@ func (c *GroupConsumer) awaitClose(timeout time.Duration) {
 	done := make(chan bool, 1)
 	go func() {
 		c.wg.Wait()
+		logger.Info("all simple consumers stopped. leave and return")
+		c.leave()
 		done <- true
 	}()
 
 	select {
 	case <-done:
-		logger.Info("all simple consumers stopped. leave and return")
 	case <-time.After(timeout):
 		logger.Info("group consumer await timeout. return")
-		return
 	}
-
-	c.leave()
 }
 
 func (c *GroupConsumer) refreshMeta() {
-- 
2.43.0


From 544a97a291c3c08bfc177c762dae377b61318676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 075/103] fix: group consumer joined again after it had left
 the group for Close

---
 group_consumer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/group_consumer.go b/group_consumer.go
index caf0175..5240fa7 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -46,6 +46,7 @@ type GroupConsumer struct {
 	assignmentStrategy AssignmentStrategy
 
 	restartLocker sync.Locker
+	joinLocker    sync.Mutex // leaving and joining exclude each other
 
 	stateLock  sync.RWMutex   // guards what join and sync set: coordinator, memberID, simpleConsumers and so on
 	background sync.WaitGroup // goroutines that Close waits for
@@ -194,6 +195,12 @@ func (c *GroupConsumer) parseGroupAssignments(memberAssignmentPayload []byte) er
 
 // join && set generationID&memberID
 func (c *GroupConsumer) join() error {
+	c.joinLocker.Lock()
+	defer c.joinLocker.Unlock()
+	if c.closed.Load() {
+		return errors.New("group consumer is closed")
+	}
+
 	logger.Info("try to join group", "groupId", c.config.GroupID)
 	var (
 		protocolType = "consumer"
@@ -426,6 +433,10 @@ func (c *GroupConsumer) stop() {
 }
 
 func (c *GroupConsumer) leave() {
+	// wait for a join that is under way: it is a member after that. and no join will follow
+	c.joinLocker.Lock()
+	defer c.joinLocker.Unlock()
+
 	// it is a member even if it is about to join again
 	coordinator, _, memberID := c.membership()
 	if memberID == "" {
-- 
2.43.0


From 6eca70e529ecb529441904c034fad4865f82f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:14 +0000
Subject: [PATCH 076/103] fix: a zero interval in the configuration crashed the
 process

auto.commit.interval.ms, metadata.max.age.ms and session.timeout.ms of 0 or
less made time.NewTicker panic in a goroutine; they are now refused.
---
 config.go          | 16 ++++++++++++++++
 consumer.go        |  3 +++
 producer.go        |  3 +++
 simple_consumer.go |  6 ++++++
 4 files changed, 28 insertions(+)

diff --git a/config.go b/config.go
index 71fb368..bd6f55e 100644
--- a/config.go
+++ b/config.go
@@ -172,6 +172,9 @@ func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
 var (
 	errEmptyGroupID                 = errors.New("group.id is empty")
 	errInvallidOffsetsStorageConfig = errors.New("offsets.storage must be 0 or 1")
+	errAutoCommitIntervalMS         = errors.New("auto.commit.interval.ms must > 0")
+	errMetadataMaxAgeMS             = errors.New("metadata.max.age.ms must > 0")
+	errSessionTimeoutMS             = errors.New("session.timeout.ms must > 0")
 )
 
 func (config *ConsumerConfig) checkValid() error {
@@ -184,6 +187,19 @@ func (config *ConsumerConfig) checkValid() error {
 	if config.OffsetsStorage != 0 && config.OffsetsStorage != 1 {
 		return errInvallidOffsetsStorageConfig
 	}
+	if config.MetadataMaxAgeMS <= 0 {
+		return errMetadataMaxAgeMS
+	}
+	if config.SessionTimeoutMS <= 0 {
+		return errSessionTimeoutMS
+	}
+	return config.checkAutoCommit()
+}
+
+func (config *ConsumerConfig) checkAutoCommit() error {
+	if config.AutoCommit && config.GroupID != "" && config.AutoCommitIntervalMS <= 0 {
+		return errAutoCommitIntervalMS
+	}
 	return nil
 }
 
diff --git a/consumer.go b/consumer.go
index 1c27dab..f0a3f4c 100644
--- a/consumer.go
+++ b/consumer.go
@@ -26,6 +26,9 @@ func NewConsumer(config interface{}, topics ...string) (*Consumer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := cfg.checkAutoCommit(); err != nil {
+		return nil, err
+	}
 	brokerConfig := getBrokerConfigFromConsumerConfig(cfg)
 	brokers, err := NewBrokersWithConfig(cfg.BootstrapServers, brokerConfig)
 	if err != nil {
diff --git a/producer.go b/producer.go
index 37cd856..05f9bdd 100644
--- a/producer.go
+++ b/producer.go
@@ -42,6 +42,9 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if cfg.MetadataMaxAgeMS <= 0 {
+		return nil, errMetadataMaxAgeMS
+	}
 
 	p := &Producer{
 		config:               cfg,
diff --git a/simple_consumer.go b/simple_consumer.go
index e6ce9c2..8d31ca7 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -107,6 +107,9 @@ func NewSimpleConsumer(topic string, partitionID int32, config interface{}) (*Si
 	if err != nil {
 		return nil, err
 	}
+	if err := cfg.checkAutoCommit(); err != nil {
+		return nil, err
+	}
 
 	brokerConfig := getBrokerConfigFromConsumerConfig(cfg)
 
@@ -402,6 +405,9 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	if messageChan == nil {
 		messages = make(chan *FullMessage, 100)
 	}
+	if err = c.config.checkAutoCommit(); err != nil {
+		return messages, err
+	}
 
 	c.lifecycle.Lock()
 	defer c.lifecycle.Unlock()
-- 
2.43.0


From 8626e31195e768cd334947869d69cfa54766c5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:32 +0000
Subject: [PATCH 077/103] fix: a request to a broker that does not read blocked
 forever

the timeout only covered reading the response.
---
 broker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broker.go b/broker.go
index 85a3a5a..2ce92b0 100644
--- a/broker.go
+++ b/broker.go
@@ -301,6 +301,9 @@ func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, e
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
 	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
@@ -329,6 +332,9 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
 	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return nil, responseLength, err
 	}
-- 
2.43.0


From 8ff1e4dd172aec6391d7c76fed84897db3d04946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:43 +0000
Subject: [PATCH 078/103] fix: data race between the metadata refresh and the
 assignment of a group leader

---
 group_consumer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/group_consumer.go b/group_consumer.go
index 5240fa7..4c68aa2 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -265,7 +265,10 @@ func (c *GroupConsumer) sync() error {
 		if c.closed.Load() {
 			return errors.New("group consumer is closed")
 		}
-		groupAssignment = c.assignmentStrategy.Assign(c.members, c.topicMetadatas)
+		c.stateLock.RLock()
+		topicMetadatas := c.topicMetadatas // refreshMeta may replace it
+		c.stateLock.RUnlock()
+		groupAssignment = c.assignmentStrategy.Assign(c.members, topicMetadatas)
 	} else {
 		groupAssignment = nil
 	}
-- 
2.43.0


From 3ba81edfb827f3f3db86bbd44fbc8044e43aa75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:28 +0000
Subject: [PATCH 079/103] fix: DescribeLogDirs of all the topics returned none
 of them

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 15e2c71..d9ebb59 100644
--- a/client.go
+++ b/client.go
@@ -64,6 +64,9 @@ func (c *Client) ListGroups() (groups map[int32][]*Group, err error) {
 
 func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResponse, error) {
 	c.logger.Info("describe logdirs", "topics", topics)
+	if len(topics) == 0 {
+		topics = nil // all the topics. an empty list would be none of them
+	}
 
 	meta, err := c.brokers.RequestMetaData(c.clientID, topics)
 	if err != nil {
@@ -126,7 +129,7 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 			theTopics := rs[i].Topics
 			filterdTopics := make([]DescribeLogDirsResponseTopic, 0)
 			for i := range theTopics {
-				if _, ok := topicSet[theTopics[i].TopicName]; ok {
+				if _, ok := topicSet[theTopics[i].TopicName]; ok || len(topics) == 0 {
 					filterdTopics = append(filterdTopics, theTopics[i])
 				}
 			}
-- 
2.43.0


From 07ca72ec1d06db6a7a0db90a422bd1e673da9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:30 +0000
Subject: [PATCH 080/103] fix: the acl commands dropped the values they could
 not read

A resource name with a quote or a backslash, and the spellings of the help
text such as clusteraction, were ignored: delete-acls then matched any resource.
---
 acl_types.go                        |  8 ++++----
 command/healer/cmd/create-acls.go   | 18 +++++++++++++-----
 command/healer/cmd/delete-acls.go   | 18 +++++++++++++-----
 command/healer/cmd/describe-acls.go | 18 +++++++++++++-----
 4 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index f99257e..2a0644d 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -199,13 +199,13 @@ func (o *AclsOperation) UnmarshalText(text []byte) error {
 		*o = AclsOperationAlter
 	case "DESCRIBE", "8":
 		*o = AclsOperationDescribe
-	case "CLUSTER_ACTION", "9":
+	case "CLUSTER_ACTION", "CLUSTERACTION", "9":
 		*o = AclsOperationClusterAction
-	case "DESCRIBE_CONFIGS", "10":
+	case "DESCRIBE_CONFIGS", "DESCRIBECONFIGS", "10":
 		*o = AclsOperationDescribeConfigs
-	case "ALTER_CONFIGS", "11":
+	case "ALTER_CONFIGS", "ALTERCONFIGS", "11":
 		*o = AclsOperationAlterConfigs
-	case "IDEMPOTENT_WRITE", "12":
+	case "IDEMPOTENT_WRITE", "IDEMPOTENTWRITE", "12":
 		*o = AclsOperationIdempotentWrite
 	default:
 		return fmt.Errorf("unknown AclsOperation: %s", text)
diff --git a/command/healer/cmd/create-acls.go b/command/healer/cmd/create-acls.go
index 821f007..695de48 100644
--- a/command/healer/cmd/create-acls.go
+++ b/command/healer/cmd/create-acls.go
@@ -31,17 +31,21 @@ var createAclsCmd = &cobra.Command{
 		aclCreation := healer.AclCreation{}
 
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &aclCreation.ResourceType)
+		if err := aclCreation.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &aclCreation.ResourceName)
+			aclCreation.ResourceName = resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &aclCreation.PatternType)
+			if err := aclCreation.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if aclCreation.Principal, err = cmd.Flags().GetString("principal"); err != nil {
@@ -53,10 +57,14 @@ var createAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &aclCreation.Operation)
+		if err := aclCreation.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &aclCreation.PermissionType)
+		if err := aclCreation.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.CreateAcls([]healer.AclCreation{aclCreation})
 		if err != nil {
diff --git a/command/healer/cmd/delete-acls.go b/command/healer/cmd/delete-acls.go
index f8409c7..43afc3d 100644
--- a/command/healer/cmd/delete-acls.go
+++ b/command/healer/cmd/delete-acls.go
@@ -32,17 +32,21 @@ var deleteAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &f.ResourceType)
+		if err := f.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &f.ResourceName)
+			f.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &f.PatternType)
+			if err := f.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +70,14 @@ var deleteAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &f.Operation)
+		if err := f.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &f.PermissionType)
+		if err := f.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DeleteAcls([]*healer.DeleteAclsFilter{f})
 		if err != nil {
diff --git a/command/healer/cmd/describe-acls.go b/command/healer/cmd/describe-acls.go
index 1a9113b..2fd412d 100644
--- a/command/healer/cmd/describe-acls.go
+++ b/command/healer/cmd/describe-acls.go
@@ -32,17 +32,21 @@ var describeAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &req.ResourceType)
+		if err := req.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &req.ResourceName)
+			req.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &req.PatternType)
+			if err := req.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +70,14 @@ var describeAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &req.Operation)
+		if err := req.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &req.PermissionType)
+		if err := req.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DescribeAcls(req)
 		if err != nil {
-- 
2.43.0


From f30d52b2ae5c77412b79537670d77d5cd0322bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:32 +0000
Subject: [PATCH 081/103] fix: get-pending exited with 0 when it failed

---
 command/healer/cmd/get-pending.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/get-pending.go b/command/healer/cmd/get-pending.go
index d3b1093..f23c723 100644
--- a/command/healer/cmd/get-pending.go
+++ b/command/healer/cmd/get-pending.go
@@ -1,6 +1,7 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
 	"regexp"
 	"sort"
@@ -265,12 +266,17 @@ var getPendingCmd = &cobra.Command{
 		helper = healer.NewHelperFromBrokers(brokers, client)
 
 		groupIDs := getGroups(groupID)
+		if groupIDs == nil {
+			return errors.New("failed to list the groups")
+		}
 
+		var failed error
 		for i, groupID := range groupIDs {
 			klog.V(5).Infof("%d/%d %s", i, len(groupIDs), groupID)
 			subscriptions, err := getSubscriptionsInGroup(groupID, client)
 			if err != nil {
 				klog.Errorf("failed to get subscriptions of %s: %s", groupID, err)
+				failed = err
 				continue
 			}
 			klog.V(5).Infof("%d topics: %v", len(subscriptions), subscriptions)
@@ -278,16 +284,18 @@ var getPendingCmd = &cobra.Command{
 			if topic != "" {
 				if err = getPending(groupID, topic, client, header, total, nil); err != nil {
 					klog.Errorf("get pending of %s/%s error: %s", groupID, topic, err)
+					failed = err
 				}
 			} else {
 				for topicName, v := range subscriptions {
 					if err = getPending(groupID, topicName, client, header, total, v); err != nil {
 						klog.Errorf("get pending of %s/%s error: %s", groupID, topicName, err)
+						failed = err
 					}
 				}
 			}
 		}
-		return nil
+		return failed
 	},
 }
 
-- 
2.43.0


From 662d4426b800a41041fea68a0f9fe2b9ca7416b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:33 +0000
Subject: [PATCH 082/103] fix: get-metadata printed an empty cluster when the
 request failed

---
 command/healer/cmd/get-metadata.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/command/healer/cmd/get-metadata.go b/command/healer/cmd/get-metadata.go
index 582f898..3210bc0 100644
--- a/command/healer/cmd/get-metadata.go
+++ b/command/healer/cmd/get-metadata.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/childe/healer"
@@ -30,6 +31,10 @@ var getMetadataCmd = &cobra.Command{
 		} else {
 			metadataResponse, err = brokers.RequestMetaData(client, topics)
 		}
+		var kafkaError healer.KafkaError
+		if err != nil && !errors.As(err, &kafkaError) { // the response tells the errors of kafka
+			return fmt.Errorf("failed to get metadata: %w", err)
+		}
 
 		switch format {
 		case "json":
-- 
2.43.0


From f992f5d6c43459eb5c213f350bbb1292d3755134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:34 +0000
Subject: [PATCH 083/103] fix: the console commands ignored a config that is
 not valid json

---
 command/healer/cmd/console-consumer.go | 6 +++++-
 command/healer/cmd/console-producer.go | 6 +++++-
 command/healer/cmd/group-consumer.go   | 6 +++++-
 command/healer/cmd/simple-consumer.go  | 6 +++++-
 command/healer/cmd/simple-producer.go  | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 72bd844..3389d99 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -51,7 +51,11 @@ var consoleConsumerCmd = &cobra.Command{
 			return err
 		}
 
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		var (
 			consumer *healer.Consumer
diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 7e4e634..42f301b 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -40,7 +40,11 @@ var consoleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &producerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		consoleProducer, err := healer.NewProducer(topic, producerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 5a84994..53460ce 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -58,7 +58,11 @@ var groupConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		consumer, err := healer.NewGroupConsumer(topic, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-consumer.go b/command/healer/cmd/simple-consumer.go
index d10f593..eaa5b53 100644
--- a/command/healer/cmd/simple-consumer.go
+++ b/command/healer/cmd/simple-consumer.go
@@ -63,7 +63,11 @@ var simpleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		simpleConsumer, err := healer.NewSimpleConsumer(topic, partition, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 1fbb6ce..40c6546 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -45,7 +45,11 @@ var simpleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &producerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		simpleProducer, err := healer.NewSimpleProducer(context.Background(), topic, partition, producerConfig)
 		if err != nil {
-- 
2.43.0


From 0a4b8ba960244ee3a3b21291caa9b288ea034f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:36 +0000
Subject: [PATCH 084/103] fix: create-partitions crashed on an empty item in
 the assignments

---
 command/healer/cmd/create-partitions.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/command/healer/cmd/create-partitions.go b/command/healer/cmd/create-partitions.go
index e2ac44f..58198f7 100644
--- a/command/healer/cmd/create-partitions.go
+++ b/command/healer/cmd/create-partitions.go
@@ -10,18 +10,19 @@ import (
 )
 
 func genPartitionAssignments(assignments string) (partitionAssignments [][]int32, err error) {
-	for i, brokerIDs := range strings.Split(assignments, ",") {
+	for _, brokerIDs := range strings.Split(assignments, ",") {
 		if brokerIDs == "" {
 			continue
 		}
-		partitionAssignments = append(partitionAssignments, []int32{})
+		replicas := []int32{}
 		for _, brokerID := range strings.Split(brokerIDs, ":") {
 			if _brokerID, err := strconv.Atoi(brokerID); err == nil {
-				partitionAssignments[i] = append(partitionAssignments[i], int32(_brokerID))
+				replicas = append(replicas, int32(_brokerID))
 			} else {
 				return nil, fmt.Errorf("failed to convert %s to int: %w", brokerID, err)
 			}
 		}
+		partitionAssignments = append(partitionAssignments, replicas)
 	}
 	return
 }
-- 
2.43.0


From c0998734672c3b67a8d1d92a956c1d500b9ec554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:37 +0000
Subject: [PATCH 085/103] fix: reset-offset ignored partitions that do not
 exist

---
 command/healer/cmd/reset-offset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command/healer/cmd/reset-offset.go b/command/healer/cmd/reset-offset.go
index dfbc4cb..53bb429 100644
--- a/command/healer/cmd/reset-offset.go
+++ b/command/healer/cmd/reset-offset.go
@@ -58,6 +58,12 @@ var resetOffsetCmd = &cobra.Command{
 			}
 		}
 
+		for partition := range userCustomPartitions {
+			if _, ok := offsets[partition]; !ok {
+				return fmt.Errorf("partition %d not found in %s", partition, topic)
+			}
+		}
+
 		// 1. get coordinator
 		var coordinator *healer.Broker
 		coordinatorResponse, err := brokers.FindCoordinator(client, group)
-- 
2.43.0


From 2856e4d1265b1ddfc8de345bd298f5c6012813be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:12 +0000
Subject: [PATCH 086/103] fix: console-consumer ignored printoffset

---
 command/healer/cmd/console-consumer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 3389d99..b141a64 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -42,6 +42,10 @@ var consoleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
+		printOffset, err := cmd.Flags().GetBool("printoffset")
+		if err != nil {
+			return err
+		}
 		ifJson, err := cmd.Flags().GetBool("json")
 		if err != nil {
 			return err
@@ -85,8 +89,10 @@ var consoleConsumerCmd = &cobra.Command{
 			if ifJson {
 				b, _ := json.Marshal(message)
 				fmt.Printf("%s\n", string(b))
-			} else {
+			} else if printOffset {
 				fmt.Printf("%d: %s\n", message.Message.Offset, message.Message.Value)
+			} else {
+				fmt.Printf("%s\n", message.Message.Value)
 			}
 		}
 		return nil
-- 
2.43.0


From f91c0cd191c1b1a7f8be6de302bc36d4b4bce51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:32 +0000
Subject: [PATCH 087/103] fix: the producer commands exited with 0 when the
 last messages could not be written

---
 command/healer/cmd/console-producer.go |  4 ++++
 command/healer/cmd/simple-producer.go  |  4 ++++
 producer.go                            | 21 +++++++++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 42f301b..6310ffd 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -65,6 +65,10 @@ var consoleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
+		if err := consoleProducer.Flush(); err != nil {
+			return fmt.Errorf("flush error: %w", err)
+		}
+
 		return nil
 	},
 }
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 40c6546..a29347a 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -69,6 +69,10 @@ var simpleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
+		if err := simpleProducer.Flush(); err != nil {
+			return fmt.Errorf("flush error: %w", err)
+		}
+
 		return nil
 	},
 }
diff --git a/producer.go b/producer.go
index 05f9bdd..85f59ce 100644
--- a/producer.go
+++ b/producer.go
@@ -221,6 +221,27 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 	return ErrProducerClosed
 }
 
+// Flush sends all the messages that are still in memory to kafka
+func (p *Producer) Flush() error {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+
+	if p.closed {
+		return ErrProducerClosed
+	}
+
+	var rst error
+	if err := p.currentProducer.Flush(); err != nil {
+		rst = err
+	}
+	for _, sp := range p.pidToSimpleProducers {
+		if err := sp.Flush(); err != nil {
+			rst = err
+		}
+	}
+	return rst
+}
+
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
 	p.lock.Lock()
-- 
2.43.0


From 24869d61f75d06ecdec67905fa1b60f15d7c5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:36 +0000
Subject: [PATCH 088/103] fix: list-partition-reassignments with no body was
 answered with 400

---
 command/healer/cmd/apicontrollers/partition-reassignments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index cdada7e..5fab277 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -52,7 +52,7 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	defer admin.Close()
 
 	reassignments := make([]reassignment, 0)
-	if err := c.BindJSON(&reassignments); err != nil {
+	if err := c.ShouldBindJSON(&reassignments); err != nil {
 		if err != io.EOF {
 			c.String(http.StatusBadRequest, fmt.Sprintf("reassignments value error: %s", err))
 			return
-- 
2.43.0


From 2969734a55effcf09353fac09a5bd294242953e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:37 +0000
Subject: [PATCH 089/103] fix: get-pending crashed or missed groups whose name
 has a special character

---
 command/healer/cmd/get-pending.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/command/healer/cmd/get-pending.go b/command/healer/cmd/get-pending.go
index f23c723..b56e7f9 100644
--- a/command/healer/cmd/get-pending.go
+++ b/command/healer/cmd/get-pending.go
@@ -159,8 +159,7 @@ func getGroups(groupID string) []string {
 		return []string{groupID}
 	}
 
-	var p string = strings.Replace(groupID, ".", `\.`, -1)
-	p = strings.Replace(p, "*", ".*", -1)
+	var p string = strings.Replace(regexp.QuoteMeta(groupID), `\*`, ".*", -1)
 	var groupPattern *regexp.Regexp = regexp.MustCompile("^" + p + "$")
 
 	var (
-- 
2.43.0


From 238abb58377f18511b504dedb640e35a6a26401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:33 +0000
Subject: [PATCH 090/103] fix: the consumer commands committed messages that
 they did not print

---
 command/healer/cmd/console-consumer.go | 3 ++-
 command/healer/cmd/group-consumer.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index b141a64..df3c6f6 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -79,7 +79,8 @@ var consoleConsumerCmd = &cobra.Command{
 			consumer.Assign(assign)
 		}
 
-		messages, err := consumer.Consume(nil)
+		// no buffer: the messages in it would be committed, but not printed
+		messages, err := consumer.Consume(make(chan *healer.FullMessage))
 		if err != nil {
 			return err
 		}
diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 53460ce..e98ae79 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -73,7 +73,8 @@ var groupConsumerCmd = &cobra.Command{
 
 		defer consumer.Close()
 
-		messages, err := consumer.Consume(nil)
+		// no buffer: the messages in it would be committed, but not printed
+		messages, err := consumer.Consume(make(chan *healer.FullMessage))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e9773760ed93fd0688e10fba664ddd6a208dc587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:20 +0000
Subject: [PATCH 091/103] fix: a producer closed during its refresh left a
 connection open

---
 producer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/producer.go b/producer.go
index 85f59ce..dbf0fc2 100644
--- a/producer.go
+++ b/producer.go
@@ -74,6 +74,8 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	p.ctx = context.WithValue(ctx, parentProducerKey, p)
 
 	go func() {
+		// a refresh that was under way when the producer was closed may have opened a connection again
+		defer p.brokers.Close()
 		ticker := time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond)
 		defer ticker.Stop()
 		for {
-- 
2.43.0


From 50a9a94f323cbf1e66b869b9bc844b7c5d55dde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 092/103] fix: a group consumer's Consume at the same time as
 Close raced on the wait group

---
 group_consumer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/group_consumer.go b/group_consumer.go
index 4c68aa2..f6e373f 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -551,10 +551,19 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 	if messages == nil {
 		messages = make(chan *FullMessage, 100)
 	}
+
+	// Close waits for what is started here
+	c.mutex.Lock()
+	if c.closed.Load() {
+		c.mutex.Unlock()
+		return messages, nil
+	}
 	c.messages = messages
+	c.background.Add(3)
+	c.mutex.Unlock()
+	defer c.background.Done()
 
 	// go heartbeat
-	c.background.Add(2)
 	go func() {
 		defer c.background.Done()
 		ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.SessionTimeoutMS) / 10)
-- 
2.43.0


From 5b46991406157652aeab3a1099ede77c185e9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:29 +0000
Subject: [PATCH 093/103] fix: calls on closed Brokers or a closed client
 opened connections again

---
 broker.go  | 18 +++++++++++++++++-
 brokers.go |  8 ++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/broker.go b/broker.go
index 2ce92b0..9f3ac56 100644
--- a/broker.go
+++ b/broker.go
@@ -26,6 +26,8 @@ type Broker struct {
 
 	mux       sync.Mutex
 	closeLock sync.Mutex
+
+	shutdown bool // closed for good, never opens a connection again
 }
 
 var (
@@ -70,8 +72,12 @@ func (broker *Broker) createConn() error {
 		return err
 	} else {
 		broker.closeLock.Lock()
+		defer broker.closeLock.Unlock()
+		if broker.shutdown {
+			conn.Close()
+			return errBrokersClosed
+		}
 		broker.conn = conn
-		broker.closeLock.Unlock()
 		return nil
 	}
 }
@@ -223,6 +229,16 @@ func (broker *Broker) Close() {
 		broker.conn = nil
 	}
 }
+
+// closeForGood closes the connection to the broker, requests do not open a new one after that
+func (broker *Broker) closeForGood() {
+	broker.closeLock.Lock()
+	broker.shutdown = true
+	broker.closeLock.Unlock()
+
+	broker.Close()
+}
+
 func (broker *Broker) ensureOpen() (err error) {
 	if broker.getConn() != nil {
 		return nil
diff --git a/brokers.go b/brokers.go
index a77d738..b6044c7 100644
--- a/brokers.go
+++ b/brokers.go
@@ -34,7 +34,7 @@ func (brokers *Brokers) Close() {
 
 	brokers.closed = true
 	for _, broker := range brokers.brokers {
-		broker.Close()
+		broker.closeForGood()
 	}
 }
 
@@ -212,12 +212,12 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 
-	if broker, ok := brokers.brokers[nodeID]; ok {
-		return broker, nil
-	}
 	if brokers.closed {
 		return nil, errBrokersClosed
 	}
+	if broker, ok := brokers.brokers[nodeID]; ok {
+		return broker, nil
+	}
 
 	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
-- 
2.43.0


From b2b692afadd7c299c5c70166dc3037107c124d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:09 +0000
Subject: [PATCH 094/103] fix: a consumer created while its Brokers are closed
 never returned

---
 brokers.go         | 6 ++++++
 simple_consumer.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/brokers.go b/brokers.go
index b6044c7..879ef9e 100644
--- a/brokers.go
+++ b/brokers.go
@@ -38,6 +38,12 @@ func (brokers *Brokers) Close() {
 	}
 }
 
+func (brokers *Brokers) isClosed() bool {
+	brokers.mutex.Lock()
+	defer brokers.mutex.Unlock()
+	return brokers.closed
+}
+
 // BrokersInfo returns brokers info, it is a private member and should not be changed from outside
 func (brokers *Brokers) BrokersInfo() map[int32]*BrokerInfo {
 	brokers.infoLock.RLock()
diff --git a/simple_consumer.go b/simple_consumer.go
index 8d31ca7..9a947fa 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -88,6 +88,9 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 			err = c.getCoordinator()
 			if err != nil {
 				logger.Error(err, "failed to get coordinator")
+				if brokers.isClosed() {
+					break
+				}
 				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 				continue
 			}
-- 
2.43.0


From c857f2cd625e5e45acd534ba310b097238944896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:36 +0000
Subject: [PATCH 095/103] fix: a group consumer's sync raced with the leave of
 Close on the member id

---
 group_consumer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index f6e373f..9263ff6 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -274,8 +274,9 @@ func (c *GroupConsumer) sync() error {
 	}
 	logger.Info("create group assignment", "assignment", groupAssignment)
 
-	syncGroupResponse, err := c.coordinator.requestSyncGroup(
-		c.config.ClientID, c.config.GroupID, c.generationID, c.memberID, groupAssignment)
+	coordinator, generationID, memberID := c.membership()
+	syncGroupResponse, err := coordinator.requestSyncGroup(
+		c.config.ClientID, c.config.GroupID, generationID, memberID, groupAssignment)
 
 	b, _ := json.Marshal(syncGroupResponse)
 	logger.Info("sync returns", "response", b)
-- 
2.43.0


From a1402531f27846bcbcfddbacf04f6fae56e5bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:15 +0000
Subject: [PATCH 096/103] fix: write the length of the user data of a member
 assignment

---
 group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/group.go b/group.go
index 87debf1..502b760 100644
--- a/group.go
+++ b/group.go
@@ -49,6 +49,8 @@ func (memberAssignment *MemberAssignment) Encode() []byte {
 			offset += 4
 		}
 	}
+	binary.BigEndian.PutUint32(payload[offset:], uint32(len(memberAssignment.UserData)))
+	offset += 4
 	copy(payload[offset:], memberAssignment.UserData)
 
 	return payload
-- 
2.43.0


From ea0f4b4e65dd69fb7be3bb799311aba8932d6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:16 +0000
Subject: [PATCH 097/103] fix: healer api reports that it could not listen

---
 command/healer/cmd/api.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/command/healer/cmd/api.go b/command/healer/cmd/api.go
index 38cdb70..fd7761a 100644
--- a/command/healer/cmd/api.go
+++ b/command/healer/cmd/api.go
@@ -160,8 +160,7 @@ var apiCmd = &cobra.Command{
 		router.POST("/create-acls", wrap(apicontrollers.CreateAcls, client))
 		router.DELETE("/delete-acls", wrap(apicontrollers.DeleteAcls, client))
 
-		router.Run(fullAddress)
-		return nil
+		return router.Run(fullAddress)
 	},
 }
 
-- 
2.43.0


From af19867926666102d9f366a887d45218854a024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:55 +0000
Subject: [PATCH 098/103] fix: the configs of a broker's loggers are described
 by that broker

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index d9ebb59..ff5d9b3 100644
--- a/client.go
+++ b/client.go
@@ -371,7 +371,7 @@ func (c *Client) DescribeConfigs(resourceType, resourceName string, keys []strin
 	req := NewDescribeConfigsRequest(c.clientID, resources)
 
 	var serverID int32
-	if resourceType == "broker" {
+	if resourceType == "broker" || resourceType == "broker_logger" {
 		if brokerID, e := strconv.Atoi(resourceName); e != nil {
 			return r, fmt.Errorf("broker id must be a number")
 		} else {
-- 
2.43.0


From ec44ded82ec1dc179dd64b29f481bf7203c8a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:55 +0000
Subject: [PATCH 099/103] fix: alter-configs sends the configs of a broker to
 that broker

---
 command/healer/cmd/alter-configs.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/command/healer/cmd/alter-configs.go b/command/healer/cmd/alter-configs.go
index f2b4a56..05a9639 100644
--- a/command/healer/cmd/alter-configs.go
+++ b/command/healer/cmd/alter-configs.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 
 	"github.com/childe/healer"
 	"github.com/spf13/cobra"
@@ -44,16 +45,25 @@ var alterConfigsCmd = &cobra.Command{
 			return fmt.Errorf("failed to create brokers from %s", brokers)
 		}
 
-		controller, err := bs.GetBroker(bs.Controller())
+		// only the broker itself alters its own configs
+		nodeID := bs.Controller()
+		if resourceName != "" && (resourceType == "broker" || resourceType == "broker_logger") {
+			id, err := strconv.ParseInt(resourceName, 10, 32)
+			if err != nil {
+				return fmt.Errorf("broker id must be a number: %w", err)
+			}
+			nodeID = int32(id)
+		}
+		broker, err := bs.GetBroker(nodeID)
 		if err != nil {
-			return fmt.Errorf("failed to create crotroller broker: %w", err)
+			return fmt.Errorf("failed to create broker: %w", err)
 		}
-		klog.V(5).Infof("controller: %s", controller.GetAddress())
+		klog.V(5).Infof("broker: %s", broker.GetAddress())
 
 		r := healer.NewIncrementalAlterConfigsRequest(client)
 		r.AddConfig(healer.ConvertConfigResourceType(resourceType), resourceName, configName, configValue)
 
-		resp, err := controller.RequestAndGet(r)
+		resp, err := broker.RequestAndGet(r)
 		if err != nil {
 			return fmt.Errorf("faild to alter configs: %w", err)
 		}
-- 
2.43.0


From 30d3b40167903dab646a178661a4ea7e4efe5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:57 +0000
Subject: [PATCH 100/103] fix: alter-configs and describe-configs refuse
 unknown resource types

---
 command/healer/cmd/alter-configs.go    | 4 ++++
 command/healer/cmd/describe-configs.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/command/healer/cmd/alter-configs.go b/command/healer/cmd/alter-configs.go
index 05a9639..b67e206 100644
--- a/command/healer/cmd/alter-configs.go
+++ b/command/healer/cmd/alter-configs.go
@@ -40,6 +40,10 @@ var alterConfigsCmd = &cobra.Command{
 			return err
 		}
 
+		if healer.ConvertConfigResourceType(resourceType) == 0 {
+			return fmt.Errorf("unknown resource type %q", resourceType)
+		}
+
 		bs, err := healer.NewBrokers(brokers)
 		if err != nil {
 			return fmt.Errorf("failed to create brokers from %s", brokers)
diff --git a/command/healer/cmd/describe-configs.go b/command/healer/cmd/describe-configs.go
index 971604a..cfd994a 100644
--- a/command/healer/cmd/describe-configs.go
+++ b/command/healer/cmd/describe-configs.go
@@ -30,6 +30,10 @@ var describeConfigsCmd = &cobra.Command{
 			return err
 		}
 
+		if healer.ConvertConfigResourceType(resourceType) == 0 {
+			return fmt.Errorf("unknown resource type %q", resourceType)
+		}
+
 		var keys []string
 		if !cmd.Flags().Changed("keys") {
 			keys = nil
-- 
2.43.0


From 388c1e26ca7301adcf7c9942564ab34f02d8e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:55 +0000
Subject: [PATCH 101/103] fix: a partition without leader made the producer of
 its topic unusable

---
 metadata_response.go | 10 ++++++++++
 producer.go          |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/metadata_response.go b/metadata_response.go
index 976ce73..d65606f 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -43,6 +43,16 @@ func (r MetadataResponse) Error() error {
 	return nil
 }
 
+// onlyPartitionErrors returns true if there are topics, and all the errors are errors of partitions, such as having no leader.
+func (r MetadataResponse) onlyPartitionErrors() bool {
+	for _, topic := range r.TopicMetadatas {
+		if topic.TopicErrorCode != 0 {
+			return false
+		}
+	}
+	return len(r.TopicMetadatas) > 0
+}
+
 // BrokerInfo holds all the fields of broker info, which is used in metadata response
 type BrokerInfo struct {
 	NodeID int32
diff --git a/producer.go b/producer.go
index dbf0fc2..4df6c75 100644
--- a/producer.go
+++ b/producer.go
@@ -100,7 +100,8 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err == nil {
 		err = metadataResponse.Error()
 	}
-	if err != nil {
+	// a partition that has no leader does not matter for the others
+	if err != nil && !metadataResponse.onlyPartitionErrors() {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
 	if len(metadataResponse.TopicMetadatas) == 0 {
-- 
2.43.0


From ba2b984569e8902ef6ffa72ce1aecdb89960663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:01 +0000
Subject: [PATCH 102/103] fix: a partition without leader kept its consumer
 groups from rebalancing

---
 group_consumer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 9263ff6..41cf511 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -100,7 +100,7 @@ func NewGroupConsumer(topic string, config interface{}) (*GroupConsumer, error)
 
 // request metadata and set partition metadat to group-consumer. only leader should request this
 func (c *GroupConsumer) getTopicPartitionInfo() {
-	// TODO if could not get meta, such as error 5:`There is no leader for this topic-partition as we are in the middle of a leadership election.`
+	// a partition without leader is assigned as well, its consumer waits for the leader
 	var (
 		metaDataResponse MetadataResponse
 		err              error
@@ -122,7 +122,7 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 	c.stateLock.Unlock()
 	for !c.closed.Load() {
 		metaDataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, c.topics)
-		if err == nil {
+		if err == nil || metaDataResponse.onlyPartitionErrors() {
 			break
 		} else {
 			logger.Error(err, "failed to get metadata", "topics", c.topics)
-- 
2.43.0


From 51f17f4597167998bc3c7bef331cf32a76a2cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:45 +0000
Subject: [PATCH 103/103] fix: timestamps of the messages of a topic with
 LogAppendTime

---
 fetch_response.go | 6 +++++-
 message.go        | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/fetch_response.go b/fetch_response.go
index 681c58a..e5c80a1 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -191,7 +191,8 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	isControlBatch := attributes&0x20 != 0
 	lastOffsetDelta := int32(binary.BigEndian.Uint32(buf[23:]))
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
-	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
+	maxTimestamp := binary.BigEndian.Uint64(buf[35:])
+	isLogAppendTime := attributes&0x08 != 0
 	// producerID := binary.BigEndian.Uint64(buf[43:])
 	// producerEpoch := binary.BigEndian.Uint16(buf[51:])
 	// baseSequence := binary.BigEndian.Uint32(buf[53:])
@@ -247,6 +248,9 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 			Value:      record.value,
 			Headers:    record.Headers,
 		}
+		if isLogAppendTime { // the broker has set it, for the whole batch
+			message.Timestamp = maxTimestamp
+		}
 		if err = streamDecoder.filterAndPutMessage(message, topicName, partitionID); err != nil {
 			return offset, err
 		}
diff --git a/message.go b/message.go
index 3d6b403..5092958 100644
--- a/message.go
+++ b/message.go
@@ -182,6 +182,11 @@ func DecodeToMessageSet(payload []byte) (messageSet MessageSet, err error) {
 					m.Offset += base
 				}
 			}
+			if message.MagicByte == 1 && message.Attributes&0x08 != 0 { // LogAppendTime, the broker has only set that of the outer message
+				for _, m := range _messageSet {
+					m.Timestamp = message.Timestamp
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
-- 
2.43.0

