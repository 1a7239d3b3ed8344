// Package hnull runs the store properties against this backend.
package hnull

import (
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/null"

	"oureaverif/hs"
)

var eng = hs.Engine{Name: "null", Persistent: false, New: null.New, Open: func(path string, mo store.MergeOperator) (store.KVStore, error) {
	return null.New(mo, map[string]interface{}{"path": ""})
}}
