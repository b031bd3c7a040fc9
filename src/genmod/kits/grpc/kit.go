// Package grpc adapts the gRPC validation decorator.
package grpc

import (
	"fmt"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"vsim/dec"
)

func init() {
	dec.ErrCheck["grpc_validate"] = func(got, want error) string {
		s, ok := status.FromError(got)
		if !ok {
			return fmt.Sprintf("%v is not a gRPC status", got)
		}
		if s.Code() != codes.InvalidArgument {
			return fmt.Sprintf("code %v", s.Code())
		}
		if s.Message() != want.Error() {
			return fmt.Sprintf("message %q instead of %q", s.Message(), want.Error())
		}
		return ""
	}
}
