// Package rgrpc makes gRPC clients of the code under test dial simulated connections.
package rgrpc

import (
	"context"

	"google.golang.org/grpc"
)

// Options, if set, are added to every dial.
var Options func() []grpc.DialOption

// Dialled, if set, is told of every connection made.
var Dialled func(*grpc.ClientConn)

func done(c *grpc.ClientConn, err error) (*grpc.ClientConn, error) {
	if err == nil && Dialled != nil {
		Dialled(c)
	}
	return c, err
}

func opts(o []grpc.DialOption) []grpc.DialOption {
	if Options != nil {
		o = append(append([]grpc.DialOption(nil), o...), Options()...)
	}
	return o
}

// Dial replaces grpc.Dial.
func Dial(target string, o ...grpc.DialOption) (*grpc.ClientConn, error) {
	return done(grpc.Dial(target, opts(o)...))
}

// DialContext replaces grpc.DialContext.
func DialContext(ctx context.Context, target string, o ...grpc.DialOption) (*grpc.ClientConn, error) {
	return done(grpc.DialContext(ctx, target, opts(o)...))
}

// NewClient replaces grpc.NewClient.
func NewClient(target string, o ...grpc.DialOption) (*grpc.ClientConn, error) {
	return done(grpc.NewClient(target, opts(o)...))
}
