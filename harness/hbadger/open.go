// Package hbadger runs the store properties against this backend.
package hbadger

import (
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"

	"oureaverif/hs"
)

var eng = hs.Engine{Name: "badger", Persistent: true, New: badger.New, Open: func(path string, mo store.MergeOperator) (store.KVStore, error) {
	return badger.New(mo, map[string]interface{}{"path": path})
}}
