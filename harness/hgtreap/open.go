// Package hgtreap runs the store properties against this backend.
package hgtreap

import (
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/gtreap"

	"oureaverif/hs"
)

var eng = hs.Engine{Name: "gtreap", Persistent: false, New: gtreap.New, Open: func(path string, mo store.MergeOperator) (store.KVStore, error) {
	return gtreap.New(mo, map[string]interface{}{"path": ""})
}}
