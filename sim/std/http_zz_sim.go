package http

import "runtime"

// SimTransport answers the requests of simulated processes.
var SimTransport func(*Request) (*Response, error)

func simActive() bool { return runtime.SimActive() }
