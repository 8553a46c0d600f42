package kproto

import (
	"encoding/binary"
	"fmt"
)

// API describes request and response bodies of one Kafka API.
type API struct {
	Key       int
	Name      string
	Req, Resp *Schema
	Flex      int // first flexible version
}

// APIs is keyed by api key.
var APIs = map[int]*API{}

func def(key int, name string, flex int, req, resp string) {
	APIs[key] = &API{Key: key, Name: name, Flex: flex, Req: Parse(req, flex), Resp: Parse(resp, flex)}
}

const (
	Produce                     = 0
	Fetch                       = 1
	ListOffsets                 = 2
	Metadata                    = 3
	OffsetCommit                = 8
	OffsetFetch                 = 9
	FindCoordinator             = 10
	JoinGroup                   = 11
	Heartbeat                   = 12
	LeaveGroup                  = 13
	SyncGroup                   = 14
	DescribeGroups              = 15
	ListGroups                  = 16
	SaslHandshake               = 17
	ApiVersions                 = 18
	CreateTopics                = 19
	DeleteTopics                = 20
	DescribeAcls                = 29
	CreateAcls                  = 30
	DeleteAcls                  = 31
	DescribeConfigs             = 32
	AlterConfigs                = 33
	DescribeLogDirs             = 35
	SaslAuthenticate            = 36
	CreatePartitions            = 37
	DeleteGroups                = 42
	ElectLeaders                = 43
	IncrementalAlterConfigs     = 44
	AlterPartitionReassignments = 45
	ListPartitionReassignments  = 46
)

func init() {
	def(Produce, "Produce", 9,
		`transactional_id ?string @3+; acks int16; timeout_ms int32;
		 topics [{name string; partitions [{index int32; records ?bytes}]}]`,
		`responses [{name string; partitions [{index int32; error_code int16; base_offset int64;
		   log_append_time int64 @2+; log_start_offset int64 @5+;
		   record_errors [{batch_index int32; message ?string}] @8+; error_message ?string @8+}]}];
		 throttle_time_ms int32 @1+`)
	def(Fetch, "Fetch", 12,
		`replica_id int32; max_wait_ms int32; min_bytes int32; max_bytes int32 @3+; isolation_level int8 @4+;
		 session_id int32 @7+; session_epoch int32 @7+;
		 topics [{topic string; partitions [{partition int32; current_leader_epoch int32 @9+; fetch_offset int64;
		    log_start_offset int64 @5+; partition_max_bytes int32}]}];
		 forgotten [{topic string; partitions [int32]}] @7+; rack_id string @11+`,
		`throttle_time_ms int32 @1+; error_code int16 @7+; session_id int32 @7+;
		 responses [{topic string; partitions [{partition int32; error_code int16; high_watermark int64;
		    last_stable_offset int64 @4+; log_start_offset int64 @5+;
		    aborted ? [{producer_id int64; first_offset int64}] @4+; preferred_read_replica int32 @11+; records ?bytes}]}]`)
	def(ListOffsets, "ListOffsets", 6,
		`replica_id int32; isolation_level int8 @2+;
		 topics [{name string; partitions [{index int32; current_leader_epoch int32 @4+; timestamp int64; max_num_offsets int32 @0}]}]`,
		`throttle_time_ms int32 @2+;
		 topics [{name string; partitions [{index int32; error_code int16; offsets [int64] @0; timestamp int64 @1+; offset int64 @1+; leader_epoch int32 @4+}]}]`)
	def(Metadata, "Metadata", 9,
		`topics ? [{name string}]; allow_auto_topic_creation bool @4+; include_cluster_ops bool @8-10; include_topic_ops bool @8+`,
		`throttle_time_ms int32 @3+; brokers [{node_id int32; host string; port int32; rack ?string @1+}];
		 cluster_id ?string @2+; controller_id int32 @1+;
		 topics [{error_code int16; name string; is_internal bool @1+;
		   partitions [{error_code int16; index int32; leader int32; leader_epoch int32 @7+; replicas [int32]; isr [int32]; offline [int32] @5+}]}]`)
	def(OffsetCommit, "OffsetCommit", 8,
		`group string; generation int32 @1+; member string @1+; group_instance_id ?string @7+; retention_ms int64 @2-4;
		 topics [{name string; partitions [{index int32; offset int64; leader_epoch int32 @6+; timestamp int64 @1; metadata ?string}]}]`,
		`throttle_time_ms int32 @3+; topics [{name string; partitions [{index int32; error_code int16}]}]`)
	def(OffsetFetch, "OffsetFetch", 6,
		`group string; topics ? [{name string; partitions [int32]}]`,
		`throttle_time_ms int32 @3+;
		 topics [{name string; partitions [{index int32; offset int64; leader_epoch int32 @5+; metadata ?string; error_code int16}]}]; error_code int16 @2+`)
	def(FindCoordinator, "FindCoordinator", 3,
		`key string; key_type int8 @1+`,
		`throttle_time_ms int32 @1+; error_code int16; error_message ?string @1+; node_id int32; host string; port int32`)
	def(JoinGroup, "JoinGroup", 6,
		`group string; session_timeout int32; rebalance_timeout int32 @1+; member string; group_instance_id ?string @5+; protocol_type string;
		 protocols [{name string; metadata bytes}]`,
		`throttle_time_ms int32 @2+; error_code int16; generation int32; protocol string; leader string; member string;
		 members [{member string; group_instance_id ?string @5+; metadata bytes}]`)
	def(Heartbeat, "Heartbeat", 4, `group string; generation int32; member string; group_instance_id ?string @3+`, `throttle_time_ms int32 @1+; error_code int16`)
	def(LeaveGroup, "LeaveGroup", 4, `group string; member string @0-2; members [{member string; group_instance_id ?string}] @3+`, `throttle_time_ms int32 @1+; error_code int16`)
	def(SyncGroup, "SyncGroup", 4,
		`group string; generation int32; member string; group_instance_id ?string @3+; assignments [{member string; assignment bytes}]`,
		`throttle_time_ms int32 @1+; error_code int16; assignment bytes`)
	def(DescribeGroups, "DescribeGroups", 5, `groups [string]; include_ops bool @3+`,
		`throttle_time_ms int32 @1+; groups [{error_code int16; group string; state string; protocol_type string; protocol string;
		  members [{member string; group_instance_id ?string @4+; client_id string; client_host string; metadata bytes; assignment bytes}]; ops int32 @3+}]`)
	def(ListGroups, "ListGroups", 3, `states_filter [string] @4+; types_filter [string] @5+`,
		`throttle_time_ms int32 @1+; error_code int16; groups [{group string; protocol_type string; state string @4+; type string @5+}]`)
	def(SaslHandshake, "SaslHandshake", -1, `mechanism string`, `error_code int16; mechanisms [string]`)
	def(ApiVersions, "ApiVersions", 3, `client_software_name string @3+; client_software_version string @3+`,
		`error_code int16; api_keys [{api_key int16; min int16; max int16}]; throttle_time_ms int32 @1+`)
	def(CreateTopics, "CreateTopics", 5,
		`topics [{name string; num_partitions int32; replication_factor int16; assignments [{index int32; brokers [int32]}]; configs [{name string; value ?string}]}];
		 timeout_ms int32; validate_only bool @1+`,
		`throttle_time_ms int32 @2+; topics [{name string; error_code int16; error_message ?string @1+}]`)
	def(DeleteTopics, "DeleteTopics", 4, `names [string]; timeout_ms int32`, `throttle_time_ms int32 @1+; responses [{name string; error_code int16}]`)
	def(DescribeAcls, "DescribeAcls", 2,
		`resource_type int8; resource_name ?string; pattern_type int8 @1+; principal ?string; host ?string; operation int8; permission int8`,
		`throttle_time_ms int32; error_code int16; error_message ?string;
		 resources [{resource_type int8; resource_name string; pattern_type int8 @1+; acls [{principal string; host string; operation int8; permission int8}]}]`)
	def(CreateAcls, "CreateAcls", 2,
		`creations [{resource_type int8; resource_name string; pattern_type int8 @1+; principal string; host string; operation int8; permission int8}]`,
		`throttle_time_ms int32; results [{error_code int16; error_message ?string}]`)
	def(DeleteAcls, "DeleteAcls", 2,
		`filters [{resource_type int8; resource_name ?string; pattern_type int8 @1+; principal ?string; host ?string; operation int8; permission int8}]`,
		`throttle_time_ms int32; filter_results [{error_code int16; error_message ?string;
		  matching_acls [{error_code int16; error_message ?string; resource_type int8; resource_name string; pattern_type int8 @1+; principal string; host string; operation int8; permission int8}]}]`)
	def(DescribeConfigs, "DescribeConfigs", 4,
		`resources [{type int8; name string; keys ? [string]}]; include_synonyms bool @1+`,
		`throttle_time_ms int32; results [{error_code int16; error_message ?string; type int8; name string;
		  configs [{name string; value ?string; read_only bool; is_default bool @0; is_sensitive bool}]}]`)
	def(AlterConfigs, "AlterConfigs", 2,
		`resources [{type int8; name string; configs [{name string; value ?string}]}]; validate_only bool`,
		`throttle_time_ms int32; responses [{error_code int16; error_message ?string; type int8; name string}]`)
	def(IncrementalAlterConfigs, "IncrementalAlterConfigs", 1,
		`resources [{type int8; name string; configs [{name string; op int8; value ?string}]}]; validate_only bool`,
		`throttle_time_ms int32; responses [{error_code int16; error_message ?string; type int8; name string}]`)
	def(DescribeLogDirs, "DescribeLogDirs", 2, `topics ? [{topic string; partitions [int32]}]`,
		`throttle_time_ms int32; results [{error_code int16; log_dir string; topics [{name string; partitions [{index int32; size int64; offset_lag int64; is_future bool}]}]}]`)
	def(SaslAuthenticate, "SaslAuthenticate", 2, `auth_bytes bytes`, `error_code int16; error_message ?string; auth_bytes bytes; session_lifetime_ms int64 @1+`)
	def(CreatePartitions, "CreatePartitions", 2,
		`topics [{name string; count int32; assignments ? [{brokers [int32]}]}]; timeout_ms int32; validate_only bool`,
		`throttle_time_ms int32; results [{name string; error_code int16; error_message ?string}]`)
	def(DeleteGroups, "DeleteGroups", 2, `groups [string]`, `throttle_time_ms int32; results [{group string; error_code int16}]`)
	def(ElectLeaders, "ElectLeaders", 2,
		`election_type int8 @1+; topics ? [{topic string; partitions [int32]}]; timeout_ms int32`,
		`throttle_time_ms int32; error_code int16 @1+; results [{topic string; partitions [{index int32; error_code int16; error_message ?string}]}]`)
	def(AlterPartitionReassignments, "AlterPartitionReassignments", 0,
		`timeout_ms int32; topics [{name string; partitions [{index int32; replicas ? [int32]}]}]`,
		`throttle_time_ms int32; error_code int16; error_message ?string; responses [{name string; partitions [{index int32; error_code int16; error_message ?string}]}]`)
	def(ListPartitionReassignments, "ListPartitionReassignments", 0,
		`timeout_ms int32; topics ? [{name string; partitions [int32]}]`,
		`throttle_time_ms int32; error_code int16; error_message ?string;
		 topics [{name string; partitions [{index int32; replicas [int32]; adding [int32]; removing [int32]}]}]`)
}

// MaxKnown is the highest version of each API for which the schema above is complete.
var MaxKnown = map[int]int{
	Produce: 9, Fetch: 11, ListOffsets: 3, Metadata: 7, OffsetCommit: 4, OffsetFetch: 4, FindCoordinator: 2,
	JoinGroup: 4, Heartbeat: 2, LeaveGroup: 2, SyncGroup: 2, DescribeGroups: 2, ListGroups: 5, SaslHandshake: 1, ApiVersions: 2,
	CreateTopics: 3, DeleteTopics: 3, DescribeAcls: 3, CreateAcls: 3, DeleteAcls: 3, DescribeConfigs: 0, AlterConfigs: 1,
	DescribeLogDirs: 1, SaslAuthenticate: 0, CreatePartitions: 3, DeleteGroups: 1, ElectLeaders: 1, IncrementalAlterConfigs: 0,
	AlterPartitionReassignments: 0, ListPartitionReassignments: 0,
}

// ReqHeader is a decoded request header.
type ReqHeader struct {
	Key, Version int
	Corr         int32
	ClientID     *string
	Tags         []Tag
}

// DecodeRequest decodes header and body of a request frame (without length prefix).
func DecodeRequest(b []byte) (h ReqHeader, body M, err error) {
	if len(b) < 8 {
		return h, nil, fmt.Errorf("request of %d bytes has no header", len(b))
	}
	h.Key = int(int16(binary.BigEndian.Uint16(b)))
	h.Version = int(int16(binary.BigEndian.Uint16(b[2:])))
	h.Corr = int32(binary.BigEndian.Uint32(b[4:]))
	api := APIs[h.Key]
	if api == nil {
		return h, nil, fmt.Errorf("unknown api key %d", h.Key)
	}
	d := &Dec{B: b, Off: 8}
	l := d.I16()
	if d.Err == nil && l >= 0 {
		s := string(d.need(int(l)))
		h.ClientID = &s
	} else if l < -1 {
		d.fail("client id length %d", l)
	}
	if api.Req.Flexible(h.Version) {
		h.Tags = d.Tags()
	}
	if d.Err != nil {
		return h, nil, fmt.Errorf("request header of %s v%d: %w", api.Name, h.Version, d.Err)
	}
	body, err = api.Req.Decode(b[d.Off:], h.Version)
	if err != nil {
		err = fmt.Errorf("%s v%d request body: %w", api.Name, h.Version, err)
	}
	return h, body, err
}

// EncodeResponse builds a response frame including the length prefix.
func EncodeResponse(key, ver int, corr int32, tags []Tag, body M) []byte {
	api := APIs[key]
	e := &Enc{}
	e.I32(0)
	e.I32(int64(corr))
	if key != ApiVersions && api.Resp.Flexible(ver) {
		e.Tags(tags)
	}
	e.B = append(e.B, api.Resp.Encode(body, ver)...)
	binary.BigEndian.PutUint32(e.B, uint32(len(e.B)-4))
	return e.B
}

// Name is the name of an API.
func Name(key int) string {
	if a := APIs[key]; a != nil {
		return a.Name
	}
	return fmt.Sprint("api ", key)
}
