package replay

import (
	"fmt"
	"os"
	"runtime"
	"testing"
	"testing/synctest"

	_ "verifharness/cmd/all"
	"verifharness/vf"
)

// TestReplay runs the harness VF_HARNESS on the inputs in the file VF_INPUTS, against the real code,
// and prints one line "VERDICT <kind> <message>".
func TestReplay(t *testing.T) {
	name := os.Getenv("VF_HARNESS")
	if name == "" {
		t.Skip("no harness given")
	}
	if err := vf.Load(os.Getenv("VF_INPUTS")); err != nil {
		t.Fatal(err)
	}
	synctest.Test(t, func(t *testing.T) {
		vf.SetBase(runtime.NumGoroutine())
		vf.OnVerdict(func(v vf.Verdict) {
			fmt.Printf("\nVERDICT %s %s\n", v.Kind, v.Msg)
			os.Exit(0)
		})
		if !vf.Run(name) {
			fmt.Printf("\nVERDICT missing %s\n", name)
			os.Exit(3)
		}
		fmt.Printf("\nVERDICT done\n")
		os.Exit(0)
	})
}
