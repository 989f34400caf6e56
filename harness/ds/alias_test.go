package ds

import "github.com/DanLavine/willow/internal/verif/vh"

var (
	sameOrAny  = vh.SameOrAny
	queryHolds = vh.QueryHolds
	matchHolds = vh.MatchHolds
	inRange    = vh.InRange
	qKeys      = vh.QKeys
	genKV      = vh.GenKV
	genTR      = vh.GenTR
	genQuery   = vh.GenQuery
	genMatch   = vh.GenMatch
	hasIDs     = vh.HasIDs
	qShape     = vh.QShape
)

func ptr[T any](v T) *T { return &v }
