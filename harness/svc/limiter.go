package svc

import (
	"context"
	"net/http"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/limiter/api/v1/handlers"
	"github.com/DanLavine/willow/internal/limiter/api/v1/router"
	"github.com/DanLavine/willow/internal/limiter/counters"
	"github.com/DanLavine/willow/internal/limiter/overrides"
	"github.com/DanLavine/willow/internal/limiter/rules"
	"github.com/DanLavine/willow/pkg/clients"
	"go.uber.org/zap"
)

// Dial makes the clients of this process use the in-memory network.
func (n *Net) Dial() { http.DefaultTransport = n }

// Limiter serves a limiter under the host name; it asks the locker at
// lockerURL for its locks, over this network.
func (n *Net) Limiter(host, lockerURL string) (shutdown func()) {
	oc, err := overrides.NewOverrideConstructor("memory")
	must(err)
	oClient := overrides.NewDefaultOverridesClientLocal(oc)
	rc, err := rules.NewRuleConstructor("memory")
	must(err)
	rClient := rules.NewLocalRulesClient(rc, oClient)
	cc, err := counters.NewCountersConstructor("memory")
	must(err)
	ctx, cancel := context.WithCancel(context.Background())
	mux := urlrouter.New()
	router.AddV1LimiterRoutes(zap.NewNop(), mux, handlers.NewGroupRuleHandler(ctx, &clients.Config{URL: lockerURL}, rClient, counters.NewCountersClientLocal(cc, rClient)))
	n.Handle(host, mux)
	return cancel
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
