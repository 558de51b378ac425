package vatomic

func yield() {}
