// Package hlevel runs the store properties against this backend.
package hlevel

import (
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/goleveldb"

	"oureaverif/hs"
)

var eng = hs.Engine{Name: "level", Persistent: true, New: goleveldb.New, Open: func(path string, mo store.MergeOperator) (store.KVStore, error) {
	return goleveldb.New(mo, map[string]interface{}{"path": path, "create_if_missing": true})
}}
