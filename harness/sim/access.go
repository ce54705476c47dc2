package sim

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"path"
	"reflect"
	"strings"

	"verifsim/ref"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

var policyOpen = policy.Open

// readPerm is the permission that reading entries of a log needs.
func readPerm(lt pb.LogType) pb.Permission {
	switch lt {
	case pb.LogType_STRUCT_TYPE_LOG:
		return pb.Permission_PERM_LOG_READ_ENTRY
	case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
		return pb.Permission_PERM_MAP_MUTATION_READ_ENTRY
	}
	return pb.Permission_PERM_MAP_MUTATION_READ_HASH
}

// needed is the permission a request needs, by the documentation of the permissions.
func needed(m proto.Message) pb.Permission {
	user := logTypeOf(m) == pb.LogType_STRUCT_TYPE_LOG
	switch m.(type) {
	case *pb.LogAddEntryRequest:
		return pb.Permission_PERM_LOG_RAW_ADD
	case *pb.LogFetchEntriesRequest:
		return readPerm(logTypeOf(m))
	case *pb.LogTreeHashRequest, *pb.LogConsistencyProofRequest:
		if user {
			return pb.Permission_PERM_LOG_READ_HASH
		}
		return pb.Permission_PERM_MAP_MUTATION_READ_HASH
	case *pb.LogInclusionProofRequest:
		if user {
			return pb.Permission_PERM_LOG_PROVE_INCLUSION
		}
		return pb.Permission_PERM_MAP_MUTATION_READ_HASH
	case *pb.MapSetValueRequest:
		return pb.Permission_PERM_MAP_SET_VALUE
	case *pb.MapGetValueRequest, *pb.MapTreeHashRequest:
		return pb.Permission_PERM_MAP_GET_VALUE
	}
	return -1
}

// filterFor is the reference access decision: the field filter, and whether access is granted.
// The first line of the policy that grants it decides the fields.
func (j *Judge) filterFor(key string, o Obj, perm pb.Permission) (string, bool) {
	if j.w.C.Policy == nil || key == "\x00final" {
		return verifiable.AllFields, true
	}
	for _, acc := range j.w.C.Policy {
		if acc.Id != o.Acc {
			continue
		}
		for _, l := range acc.Policy {
			has := false
			for _, p := range l.Permissions {
				has = has || p == perm || p == pb.Permission_PERM_ALL_PERMISSIONS
			}
			keyOK := l.ApiKey == "*" || l.ApiKey != "" && l.ApiKey == key
			nameOK, err := path.Match(l.NameMatch, o.Name)
			if has && keyOK && nameOK && err == nil {
				return strings.Join(l.AllowedFields, ","), true
			}
		}
	}
	return "", false
}

func (j *Judge) granted(m proto.Message) bool {
	if j.w.C.Policy == nil {
		return true
	}
	o, ok := objOf(m)
	if !ok {
		return false
	}
	_, g := j.filterFor(apiKeyOf(m), o, needed(m))
	return g
}

// restricted: the reader sees only some fields.
func (j *Judge) restricted(m proto.Message) bool {
	if j.w.C.Policy == nil {
		return false
	}
	o, ok := objOf(m)
	if !ok {
		return false
	}
	f, g := j.filterFor(apiKeyOf(m), o, needed(m))
	return g && f != verifiable.AllFields
}

func filterable(d *pb.LeafData) bool {
	if d == nil {
		return true
	}
	var doc any
	return d.Format == pb.DataFormat_JSON && json.Unmarshal(d.ExtraData, &doc) == nil
}

// mustFilter: the entries asked for are certainly there and can all be filtered.
func (j *Judge) mustFilter(e *Exec, lj *logJ) bool {
	q := e.Req.(*pb.LogFetchEntriesRequest)
	last := q.Last
	if last == 0 {
		last = lj.L.Size()
	}
	o, _ := objOf(q)
	if q.First < 0 || q.First >= last || last > lj.L.Size() || j.objs[o] == nil || j.objs[o].sizeSurelyFrom(j, e.Start) < last {
		return false
	}
	for _, d := range lj.E[q.First:last] {
		switch q.Log.LogType {
		case pb.LogType_STRUCT_TYPE_LOG:
			if !filterable(d) {
				return false
			}
		case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
			var m pb.MapMutation
			if json.Unmarshal(d.ExtraData, &m) != nil || !filterable(m.Value) {
				return false
			}
		}
	}
	return true
}

// sizeSurelyFrom is like sizeSurely, from the acknowledgements alone.
func (b *objJ) sizeSurelyFrom(j *Judge, t int64) int64 {
	if j.w.C.Batch {
		return 0
	}
	n := int64(0)
	for i := range b.seq().E {
		for _, e := range b.subs[i] {
			if e.Done && e.Err == nil && e.End < t {
				n = int64(i) + 1
			}
		}
	}
	return n
}

// allFilterable: every value ever set can be given to a restricted reader.
func (j *Judge) allFilterable(b *objJ) bool {
	for _, m := range b.Muts {
		if m.Value != nil && !filterable(m.Value) {
			return false
		}
	}
	return true
}

// redactedDoc: got is want with every top-level field outside the filter replaced by its hash.
func redactedDoc(filter string, got, want []byte) bool {
	var g, w any
	if json.Unmarshal(got, &g) != nil || json.Unmarshal(want, &w) != nil {
		return false
	}
	wm, ok := w.(map[string]any)
	if !ok {
		return reflect.DeepEqual(g, w)
	}
	gm, ok := g.(map[string]any)
	if !ok || len(gm) != len(wm) {
		return false
	}
	allowed := map[string]bool{}
	for _, f := range strings.Split(filter, ",") {
		allowed[f] = true
	}
	if allowed["*"] {
		return reflect.DeepEqual(g, w)
	}
	for k, v := range wm {
		x, ok := gm[k]
		if !ok {
			return false
		}
		if allowed[k] {
			if !reflect.DeepEqual(x, v) {
				return false
			}
			continue
		}
		h, err := objecthash.ObjectHashWithStdRedaction(v)
		if err != nil || x != objecthash.RedactedPrefix+hex.EncodeToString(h) {
			return false
		}
	}
	return true
}

// redactedValue: got is what a reader restricted to some fields should see of want.
func (j *Judge) redactedValue(filter string, got, want *pb.LeafData) bool {
	if want == nil {
		return len(got.GetLeafInput()) == 0 && len(got.GetExtraData()) == 0
	}
	if !bytes.Equal(got.GetLeafInput(), want.LeafInput) || !redactedDoc(filter, got.GetExtraData(), want.ExtraData) {
		return false
	}
	// It still verifies.
	return verifiable.ValidateJSONLeafData(bg, &pb.LeafData{LeafInput: want.LeafInput, ExtraData: got.ExtraData}) == nil || !jsonHashed(want)
}

// jsonHashed: the leaf input is the object hash of the data.
func jsonHashed(d *pb.LeafData) bool {
	var doc any
	if json.Unmarshal(d.ExtraData, &doc) != nil {
		return false
	}
	h, err := objecthash.ObjectHashWithStdRedaction(doc)
	return err == nil && bytes.Equal(h, d.LeafInput)
}

func (j *Judge) redactedEntry(lt pb.LogType, filter string, got, want *pb.LeafData) bool {
	if lt == pb.LogType_STRUCT_TYPE_LOG {
		return j.redactedValue(filter, got, want)
	}
	if !bytes.Equal(got.GetLeafInput(), want.GetLeafInput()) {
		return false
	}
	var g, w pb.MapMutation
	if json.Unmarshal(got.GetExtraData(), &g) != nil || json.Unmarshal(want.GetExtraData(), &w) != nil {
		return false
	}
	gv, wv := g.Value, w.Value
	g.Value, w.Value = nil, nil
	if !proto.Equal(&g, &w) {
		return false
	}
	if h, err := mutationHash(got.ExtraData); err != nil || !bytes.Equal(h, want.LeafInput) {
		return false // it no longer verifies
	}
	if (gv == nil) != (wv == nil) {
		return false
	}
	return wv == nil || j.redactedValue(filter, gv, wv)
}

// emptyState silences unused warnings in builds without maps.
var _ = ref.Empty
