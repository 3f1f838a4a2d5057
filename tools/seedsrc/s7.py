exec(open("/verif/tools/seedsrc/s1.py").read().split('seed("p01')[0])
SEEDS.clear()
LAG, UNR, BI = "testutils/laggybus.go", "testutils/unreliablebus.go", "internal/bus/bus_interceptor.go"
seed("p27-timer-kept", "P27", [(LAG, """	if l.rh.Peek() == r && l.t.Stop() {
""", """	if l.rh.Len() == 1 && l.t.Stop() { // otherwise the timer is running
""")], "a message that overtakes one sent before it, from an end with a longer latency", "the later message waits for the latency of the first",
(f"time {P}/internal/bus {P}/testutils", """
func demo() {
	raw := bus.NewLocalMessageBus()
	lag := func(from, to string) time.Duration {
		if from == "far" {
			return 800 * time.Millisecond
		}
		return 50 * time.Millisecond
	}
	at := func(id string) bus.MessageBus { return testutils.NewTestBus(raw, testutils.WithLaggyBus(id, lag)) }
	far, near, here := at("far"), at("near"), at("here")
	ch := bus.Channel{Legacy: "c"}
	sub, err := bus.Subscribe[*Str](bg, here, ch, 10)
	must(err)
	must(far.Publish(bg, ch, str("far")))
	must(near.Publish(bg, ch, str("near")))
	start := time.Now()
	m := <-sub.Channel()
	expect(m.Value == "near" && time.Since(start) < 400*time.Millisecond, "%q arrived first, after %v", m.Value, time.Since(start))
}
"""))
seed("p27-lost-from-arrival", "P27", [(LAG, """			time.Unix(0, m.SentAt).Add(latency(m.Origin, id)),
""", """			time.Now().Add(latency(m.Origin, id)),
""")], "a wrapped bus which takes time itself, such as two laggy buses around each other", "the latencies of both add up",
(f"context time {P}/internal/bus {P}/testutils", """
func demo() {
	slow := func(ctx context.Context, _ testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
		return func() ([]byte, bool) {
			m, ok := next()
			time.Sleep(500 * time.Millisecond)
			return m, ok
		}
	}
	b := testutils.NewTestBus(bus.NewLocalMessageBus(),
		testutils.WithLaggyBus("a", func(string, string) time.Duration { return 500 * time.Millisecond }), testutils.WithSubscribeInterceptor(slow))
	ch := bus.Channel{Legacy: "c"}
	sub, err := bus.Subscribe[*Str](bg, b, ch, 10)
	must(err)
	start := time.Now()
	must(b.Publish(bg, ch, str("x")))
	<-sub.Channel()
	expect(time.Since(start) < 800*time.Millisecond, "the message took %v", time.Since(start))
}
"""))
seed("p27-loss-swallows-end", "P27", [(UNR, """				if ok && rate.Rate() > rng.Float64() {
""", """				if rate.Rate() > rng.Float64() {
""")], "a subscription closed while its channel loses every message", "the subscription never ends",
(f"time {P}/internal/bus {P}/testutils", """
func demo() {
	b := testutils.NewTestBus(bus.NewLocalMessageBus(), testutils.WithUnreliableBus(testutils.NewAtomicFailureRate(1)))
	sub, err := bus.Subscribe[*Str](bg, b, bus.Channel{Legacy: "c"}, 10)
	must(err)
	must(sub.Close())
	select {
	case <-sub.Channel():
	case <-time.After(2 * time.Second):
		fail("the channel stays open")
	}
}
"""))
