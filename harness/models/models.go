// Package models holds Go replacements for library functions whose implementation depends on the runtime.
package models

import "sync"

func syncMapEntries(m *sync.Map) []any

// SyncMapRange stands for (*sync.Map).Range.
func SyncMapRange(m *sync.Map, f func(k, v any) bool) {
	es := syncMapEntries(m)
	for i := 0; i+1 < len(es); i += 2 {
		if !f(es[i], es[i+1]) {
			return
		}
	}
}
