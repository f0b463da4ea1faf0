//go:build go1.21

package shutdown

import (
	"github.com/Vivino/rankdb/zz_verif/vsched"
	"github.com/Vivino/rankdb/zz_verif/vsync"
)

// ZZReset prepares for another start of a server in this process.
func ZZReset() {
	shutdownQueue = [4][]iNotifier{}
	shutdownFnQueue = [4][]fnNotify{}
	shutdownFinished = vsched.MakeChan[struct{}](0)
	currentStage = Stage{-1}
	shutdownRequested = false
	onTimeOut = nil
	wg = &vsync.WaitGroup{}
	SetLogPrinter(func(string, ...interface{}) {})
	LogLockTimeouts = true
}
