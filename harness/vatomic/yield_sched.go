package vatomic

import "runtime"

func yield() { runtime.VerifYieldAtomic() }
