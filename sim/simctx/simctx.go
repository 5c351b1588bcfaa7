// Package simctx replaces what package context starts goroutines for.
package simctx

import (
	"context"

	"verifsim/simrt"
)

func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	return context.AfterFunc(ctx, simrt.Callback("context.AfterFunc", f))
}
