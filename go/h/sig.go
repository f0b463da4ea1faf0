//go:build go1.21

package h

import "syscall"

const sigQuit = syscall.SIGQUIT
