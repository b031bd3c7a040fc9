package svc

// Local only exists for tests
type Local interface{ Local() }
