// Package hbolt runs the store properties against this backend.
package hbolt

import (
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/boltdb"

	"oureaverif/hs"
)

var eng = hs.Engine{Name: "bolt", Persistent: true, New: boltdb.New, Open: func(path string, mo store.MergeOperator) (store.KVStore, error) {
	return boltdb.New(mo, map[string]interface{}{"path": path + "/db"})
}}
