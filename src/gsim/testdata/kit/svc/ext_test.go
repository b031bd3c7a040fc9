package svc_test

// Store of the external test package
type Store interface{ Other() }

type types struct{}
