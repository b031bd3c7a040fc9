package ifaces

import (
	"context"

	codes "gen/journal"
	errors "gen/journal"
	fmt "gen/journal"
	io "gen/journal"
	json "gen/journal"
	logrus "gen/journal"
	math "gen/journal"
	prometheus "gen/journal"
	rand "gen/journal"
	status "gen/journal"
	strings "gen/journal"
	sync "gen/journal"
	time "gen/journal"
	trace "gen/journal"
	twirp "gen/journal"
	validator "gen/journal"
)

var _ = []interface{}{codes.Line{}, errors.Line{}, fmt.Line{}, io.Line{}, json.Line{}, logrus.Line{}, math.Line{}, prometheus.Line{}, rand.Line{},
	status.Line{}, strings.Line{}, sync.Line{}, time.Line{}, trace.Line{}, twirp.Line{}, validator.Line{}}

// Hidden lives in a file that imports other packages under the names of those that templates import.
type Hidden interface {
	Do(ctx context.Context, n int, s ...string) (string, error)
	Go(n int)
}
