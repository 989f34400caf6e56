package vh

import (
	"fmt"
	"math/rand/v2"

	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// What the query language means, written from its documentation.

func SameOrAny(a, b datatypes.EncapsulatedValue) bool {
	return a.Type == datatypes.T_any || b.Type == datatypes.T_any || Compare(a, b) == 0
}

func condHolds(vq qa.ValueQuery, s datatypes.EncapsulatedValue, present bool) bool {
	if !present || !InRange(vq.TypeRestrictions, s) {
		return false
	}
	switch vq.Comparison {
	case v1common.Equals, v1common.NotEquals: // not-equals: what is to be excluded
		return SameOrAny(s, vq.Value)
	case v1common.LessThan:
		return s.Type == datatypes.T_any || Compare(s, vq.Value) < 0
	case v1common.LessThanOrEqual:
		return s.Type == datatypes.T_any || Compare(s, vq.Value) <= 0
	case v1common.GreaterThan:
		return s.Type == datatypes.T_any || Compare(s, vq.Value) > 0
	case v1common.GreaterThanOrEqual:
		return s.Type == datatypes.T_any || Compare(s, vq.Value) >= 0
	}
	panic("comparison")
}

func SelHolds(s *qa.Selection, id string, kv KV) bool {
	if len(s.IDs) > 0 {
		ok := false
		for _, x := range s.IDs {
			ok = ok || x == id
		}
		if !ok {
			return false
		}
	}
	if s.MinNumberOfKeyValues != nil && len(kv) < *s.MinNumberOfKeyValues {
		return false
	}
	if s.MaxNumberOfKeyValues != nil && len(kv) > *s.MaxNumberOfKeyValues {
		return false
	}
	nots, hit := 0, 0
	for k, vq := range s.KeyValues {
		v, present := kv[k]
		if vq.Comparison == v1common.NotEquals {
			nots++
			if condHolds(vq, v, present) {
				hit++
			}
		} else if !condHolds(vq, v, present) {
			return false
		}
	}
	return nots == 0 || hit < nots
}

func QueryHolds(q *qa.AssociatedActionQuery, id string, kv KV) bool {
	base, result := false, true
	if q.Selection != nil {
		base = true
		result = SelHolds(q.Selection, id, kv)
	}
	for _, a := range q.And {
		base = true
		result = result && QueryHolds(a, id, kv)
	}
	if len(q.Or) == 0 {
		return result
	}
	if !base {
		result = false
	}
	for _, o := range q.Or {
		result = result || QueryHolds(o, id, kv)
	}
	return result
}

func MatchHolds(m *qm.MatchActionQuery, kv KV) bool {
	if m.MinNumberOfPermutationKeyValues != nil && len(kv) < *m.MinNumberOfPermutationKeyValues {
		return false
	}
	if m.MaxNumberOfPermutationKeyValues != nil && len(kv) > *m.MaxNumberOfPermutationKeyValues {
		return false
	}
	for k, v := range kv {
		mv, ok := m.KeyValues[k]
		if !ok || !InRange(mv.TypeRestrictions, v) || !SameOrAny(mv.Value, v) {
			return false
		}
	}
	return true
}

var QKeys = []string{"a", "b", "c", "d", "_e"}

func GenKV(g *rand.Rand, max int, withAny bool) KV {
	kv := KV{}
	for n := 1 + g.IntN(max); len(kv) < n; {
		if g.IntN(3) > 0 { // mostly few distinct values, so that sets share them
			kv[QKeys[g.IntN(len(QKeys))]] = datatypes.Int(g.IntN(3))
		} else {
			kv[QKeys[g.IntN(len(QKeys))]] = SmallValue(g, withAny)
		}
	}
	return kv
}

func GenTR(g *rand.Rand, v datatypes.EncapsulatedValue) v1common.TypeRestrictions {
	switch g.IntN(5) {
	case 0, 1:
		return AllTypes
	case 2:
		return v1common.TypeRestrictions{MinDataType: v.Type, MaxDataType: v.Type}
	case 3:
		return v1common.TypeRestrictions{MinDataType: v.Type, MaxDataType: datatypes.T_any}
	}
	a, b := Types[g.IntN(len(Types))], Types[g.IntN(len(Types))]
	if a > b {
		a, b = b, a
	}
	return v1common.TypeRestrictions{MinDataType: a, MaxDataType: b}
}

func Ptr[T any](i T) *T { return &i }

func GenSel(g *rand.Rand, ids []string) *qa.Selection {
	s := &qa.Selection{}
	for {
		if len(ids) > 0 && g.IntN(5) == 0 {
			for i := 0; i < 1+g.IntN(4); i++ {
				if g.IntN(6) == 0 {
					s.IDs = append(s.IDs, "unknown-id")
				} else {
					s.IDs = append(s.IDs, ids[g.IntN(len(ids))])
				}
			}
		}
		if g.IntN(8) > 0 {
			s.KeyValues = qa.SelectionKeyValues{}
			for i := 0; i < 1+g.IntN(3); i++ {
				v := datatypes.Int(g.IntN(3))
				if g.IntN(3) == 0 {
					v = SmallValue(g, true)
				}
				c := []v1common.DataComparison{v1common.Equals, v1common.Equals, v1common.Equals, v1common.NotEquals, v1common.NotEquals, v1common.LessThan, v1common.LessThanOrEqual, v1common.GreaterThan, v1common.GreaterThanOrEqual}[g.IntN(9)]
				if v.Type == datatypes.T_any && c != v1common.Equals && c != v1common.NotEquals {
					c = v1common.Equals
				}
				s.KeyValues[QKeys[g.IntN(len(QKeys))]] = qa.ValueQuery{Value: v, Comparison: c, TypeRestrictions: GenTR(g, v)}
			}
		}
		if g.IntN(4) == 0 {
			s.MinNumberOfKeyValues = Ptr(g.IntN(5))
		}
		if g.IntN(4) == 0 {
			s.MaxNumberOfKeyValues = Ptr(g.IntN(6))
		}
		if s.MinNumberOfKeyValues != nil && s.MaxNumberOfKeyValues != nil && *s.MaxNumberOfKeyValues < *s.MinNumberOfKeyValues {
			s.MinNumberOfKeyValues, s.MaxNumberOfKeyValues = s.MaxNumberOfKeyValues, s.MinNumberOfKeyValues
		}
		if len(s.IDs)+len(s.KeyValues) > 0 || s.MinNumberOfKeyValues != nil || s.MaxNumberOfKeyValues != nil {
			return s
		}
	}
}

func GenQuery(g *rand.Rand, depth int, ids []string) *qa.AssociatedActionQuery {
	q := &qa.AssociatedActionQuery{}
	if g.IntN(12) == 0 {
		if g.IntN(3) == 0 {
			q.And = []*qa.AssociatedActionQuery{}
		}
		if g.IntN(3) == 0 {
			q.Or = []*qa.AssociatedActionQuery{}
		}
		return q
	}
	if g.IntN(4) > 0 || depth == 0 {
		q.Selection = GenSel(g, ids)
	}
	if depth > 0 {
		for i := g.IntN(6); i < 2; i++ {
			q.And = append(q.And, GenQuery(g, depth-1, ids))
		}
		for i := g.IntN(6); i < 2; i++ {
			q.Or = append(q.Or, GenQuery(g, depth-1, ids))
		}
	}
	return q
}

func GenMatch(g *rand.Rand) *qm.MatchActionQuery {
	m := &qm.MatchActionQuery{KeyValues: qm.MatchKeyValues{}}
	for k, v := range GenKV(g, 5, true) {
		m.KeyValues[k] = qm.MatchValue{Value: v, TypeRestrictions: GenTR(g, v)}
	}
	if g.IntN(3) == 0 {
		m.MinNumberOfPermutationKeyValues = Ptr(g.IntN(5))
	}
	if g.IntN(3) == 0 {
		m.MaxNumberOfPermutationKeyValues = Ptr(g.IntN(6))
	}
	if m.MinNumberOfPermutationKeyValues != nil && m.MaxNumberOfPermutationKeyValues != nil && *m.MaxNumberOfPermutationKeyValues < *m.MinNumberOfPermutationKeyValues {
		m.MinNumberOfPermutationKeyValues, m.MaxNumberOfPermutationKeyValues = m.MaxNumberOfPermutationKeyValues, m.MinNumberOfPermutationKeyValues
	}
	return m
}

func HasIDs(q *qa.AssociatedActionQuery) bool {
	if q.Selection != nil && len(q.Selection.IDs) > 0 {
		return true
	}
	for _, x := range q.And {
		if HasIDs(x) {
			return true
		}
	}
	for _, x := range q.Or {
		if HasIDs(x) {
			return true
		}
	}
	return false
}

func QShape(q *qa.AssociatedActionQuery) string {
	s := ""
	if q.Selection != nil {
		s = fmt.Sprintf("S%d,%d", len(q.Selection.IDs), len(q.Selection.KeyValues))
		for _, v := range q.Selection.KeyValues {
			s += string(v.Comparison)
		}
	}
	for _, x := range q.And {
		s += "&(" + QShape(x) + ")"
	}
	for _, x := range q.Or {
		s += "|(" + QShape(x) + ")"
	}
	return s
}

// AllTypes restricts nothing.
var AllTypes = v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}

func InRange(tr v1common.TypeRestrictions, v datatypes.EncapsulatedValue) bool {
	return v.Type >= tr.MinDataType && v.Type <= tr.MaxDataType
}
