package simsync

import "runtime"

func yieldHost() { runtime.Gosched() }
