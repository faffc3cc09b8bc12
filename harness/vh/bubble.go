//go:build go1.25

package vh

import (
	"fmt"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

type stopBubble struct{}

type bubbleT struct {
	failed bool
	logs   []string
}

func (b *bubbleT) Helper()                   {}
func (b *bubbleT) Logf(f string, a ...any)   { b.logs = append(b.logs, fmt.Sprintf(f, a...)) }
func (b *bubbleT) Fatalf(f string, a ...any) { b.failed = true; panic(stopBubble{}) }

// Bubble runs f under a virtual clock that jumps ahead whenever everything
// waits. A violation noted inside ends f (its defers run) and is raised
// afterwards with the case's own T.
func Bubble(t *testing.T, c *Case, tags string, f func()) {
	outer := c.T
	bt := &bubbleT{}
	pan := ""
	synctest.Test(t, func(*testing.T) {
		c.T = bt
		// what was closed may still be winding down
		defer time.Sleep(10 * time.Second)
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stopBubble); ok {
					return
				}
				buf := make([]byte, 8192)
				n := runtime.Stack(buf, false)
				pan = fmt.Sprintf("%v\n%s", p, buf[:n])
			}
		}()
		f()
	})
	c.T = outer
	if bt.failed {
		outer.Logf("%s", strings.Join(bt.logs, "\n"))
		outer.Fatalf("PROPERTY-VIOLATED %s", PID)
	}
	if pan != "" {
		c.Fail(tags, "panic: %s", pan)
	}
}
