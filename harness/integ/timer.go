package integ

import (
	"context"
	"errors"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	dt "github.com/bytedance/dddfirework/d_timer/sql"
	"github.com/go-logr/logr"

	"verifharness/symdb"
	"verifharness/vf"
)

type taskCmd struct {
	ddd.Command
	f func() error
}

func (c *taskCmd) Act(ctx context.Context, container ddd.RootContainer, roots ...ddd.IEntity) error {
	return c.f()
}

func init() {
	// the engine's cron tasks on the timer kept in a table
	vf.Register("C26.engine", func() {
		st := symdb.New()
		g := st.Open("main", nil)
		st.CreateTable(g, &dt.TimerJob{})
		timer := func() ddd.ITimer {
			t := dt.NewDBTimer("svc", g, func(o *dt.Options) { o.RunInterval = 10 * time.Second; o.Logger = logr.Discard() })
			t.Start(context.Background())
			return t
		}
		time.Sleep(5 * time.Second)
		eng := ddd.NewEngine(nil, &noExec{}, ddd.WithLogger(logr.Discard()), ddd.WithTimer(timer()))
		var got []string
		ran := 0
		fail := vf.Bool("command_fails")
		register := func(k int) {
			key, cron := fmt.Sprintf("timer_task_%d", k), []string{"0 * * * * *", "30 * * * * *"}[k%2]
			if vf.Choice("kind", 2) == 0 {
				eng.RegisterCronTask(ddd.EventType(key), cron, func(key, cron string) { got = append(got, key+" "+cron) })
			} else {
				eng.RegisterCronTaskOfCommand(ddd.EventType(key), cron, func(key, cron string) ddd.ICommand {
					got = append(got, key+" "+cron)
					return &taskCmd{f: func() error {
						ran++
						if fail {
							return errors.New("business")
						}
						return nil
					}}
				})
				ran -= 1000
			}
		}
		n := 1 + vf.Choice("tasks", 2)
		for k := 0; k < n; k++ {
			register(k)
		}
		commands := -ran / 1000
		ran = 0
		// polls are at 5, 15, 25 ... seconds of a minute
		for p := 1; p <= 9; p++ {
			got, ran = nil, 0
			time.Sleep(10*time.Second + time.Millisecond)
			vf.Settle()
			now := time.Now().Second()
			want := ""
			switch {
			case now < 10:
				want = "timer_task_0 0 * * * * *"
			case now >= 30 && now < 40 && n == 2:
				want = "timer_task_1 30 * * * * *"
			}
			if want == "" {
				vf.Assert(len(got) == 0, fmt.Sprintf("at second %d %v is called", now, got))
				continue
			}
			vf.Assert(len(got) == 1 && got[0] == want, fmt.Sprintf("at second %d %v is called, should be %s", now, got, want))
			if commands == n {
				vf.Assert(ran == 1, fmt.Sprintf("the command of a task is run %d times", ran))
				vf.Reach("command")
			}
			vf.Reach("called")
		}
		// a key is registered once
		func() {
			defer func() { vf.Assert(recover() != nil, "a key is registered twice") }()
			if vf.Bool("again_command") {
				eng.RegisterCronTaskOfCommand("timer_task_0", "0 * * * * *", func(key, cron string) ddd.ICommand { return nil })
				return
			}
			eng.RegisterCronTask("timer_task_0", "0 * * * * *", func(key, cron string) {})
		}()
	})

	// without a timer a task is refused
	vf.Register("C26.none", func() {
		eng := ddd.NewEngine(nil, &noExec{}, ddd.WithLogger(logr.Discard()))
		defer func() { vf.Assert(recover() != nil, "a task is accepted although there is no timer") }()
		if vf.Bool("command") {
			eng.RegisterCronTaskOfCommand("t", "0 * * * * *", func(key, cron string) ddd.ICommand { return nil })
		} else {
			eng.RegisterCronTask("t", "0 * * * * *", func(key, cron string) {})
		}
	})
}
