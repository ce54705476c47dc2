package main

import (
	"context"
	"fmt"
	"os"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

var bg = context.Background()

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func client(m verifiable.MutatorService, r verifiable.StorageReader) *verifiable.Client {
	return &verifiable.Client{Service: (&verifiable.Service{AccessPolicy: policy.Open, Mutator: m, Reader: r}).MustCreate()}
}

func leaf(s string) *pb.LeafData { return &pb.LeafData{LeafInput: []byte(s)} }
