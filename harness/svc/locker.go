package svc

import (
	"context"
	"time"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	lockerhandlers "github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	lockerrouter "github.com/DanLavine/willow/internal/locker/api/v1/router"
	lockmanager "github.com/DanLavine/willow/internal/locker/lock_manager"
	"go.uber.org/zap"
)

// Locker starts a locker and serves it under the host name.
func (n *Net) Locker(host string, deflt time.Duration) (stop func()) {
	locker := lockmanager.NewExclusiveLocker()
	mux := urlrouter.New()
	lockerrouter.AddV1LockerRoutes(zap.NewNop(), mux, lockerhandlers.NewLockHandler(&config.LockerConfig{LockDefaultTimeout: &deflt}, locker))
	n.Handle(host, mux)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		defer close(done)
		locker.Execute(ctx)
	}()
	return func() { cancel(); <-done }
}
