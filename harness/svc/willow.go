package svc

import (
	"context"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/willow/api/v1/handlers"
	"github.com/DanLavine/willow/internal/willow/api/v1/router"
	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/constructor"
	"github.com/DanLavine/willow/internal/willow/brokers/queues"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"go.uber.org/zap"
)

// Willow starts a willow and serves it under the host name; it counts with
// the limiter at limiterURL, over this network. ruleID is the id of the rule it
// limits its queues with.
func (n *Net) Willow(host, limiterURL string) (stop func(), ruleID string) {
	limiter, err := limiterclient.NewLimiterClient(&clients.Config{URL: limiterURL})
	must(err)
	// as cmd/willow does
	var zero int64
	rule, err := limiter.CreateRule(context.Background(), &v1limiter.Rule{Spec: &v1limiter.RuleSpec{
		DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.KeyValues{"_willow_queue_name": datatypes.Any(), "_willow_enqueued": datatypes.Any()}},
		Properties:   &v1limiter.RuleProperties{Limit: &zero},
	}})
	must(err)
	ruleID = rule.State.ID
	chConstructor, err := constructor.NewQueueChannelConstructor("memory", limiter)
	must(err)
	channels := queuechannels.NewLocalQueueChannelsClient(chConstructor)
	qConstructor, err := queues.NewQueueConstructor("memory", limiter)
	must(err)
	qs := queues.NewLocalQueueClient(qConstructor, channels, ruleID)
	mux := urlrouter.New()
	router.AddV1WillowRoutes(zap.NewNop(), mux, handlers.NewV1QueueHandler(qs, ruleID))
	n.Handle(host, mux)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		defer close(done)
		channels.Execute(ctx)
	}()
	return func() { cancel(); <-done }, ruleID
}
