// Package replay runs a harness natively on a counterexample (see replay_test.go).
package replay
