package props

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
)

// A session uses one kind of client component against the cluster, in two
// halves, with something happening to the connections in between.

type secCfg struct {
	sasl healer.SaslConfig
	on   bool
	tls  *healer.TLSConfig
}

var components = []string{"brokers", "producer", "keyed producer", "simple producer", "consumer", "consumer with group", "simple consumer", "group consumer"}

// feed appends one batch with a message to every partition of topic "t" and returns the number of partitions.
func feed(c *fake.Cluster, n int) int {
	c.Mu.Lock()
	parts := len(c.Topics["t"].Parts)
	c.Mu.Unlock()
	for p := int32(0); int(p) < parts; p++ {
		for i := 0; i < n; i++ {
			c.Mu.Lock()
			off := c.Topics["t"].Parts[p].HW
			c.Mu.Unlock()
			rec := kproto.Rec{Offset: off, Ts: 1600000000000 + off, Value: []byte(fmt.Sprintf("v%d-%d", p, off))}
			c.Append("t", p, fake.Chunk{First: off, Last: off, Bytes: kproto.EncodeBatch([]kproto.Rec{rec}, kproto.BatchOpt{BaseOffset: off, LastOffset: off, BaseTs: rec.Ts, ProducerID: -1, ProducerEpoch: -1, BaseSeq: -1}), Recs: []kproto.Rec{rec}})
		}
	}
	return parts * n
}

// tries calls f until it succeeds, at most n times.
func tries(n int, f func() error) (err error) {
	for i := 0; i < n; i++ {
		if err = f(); err == nil {
			return nil
		}
		time.Sleep(2 * time.Millisecond)
	}
	return err
}

// useComponent returns whether the component could be created, and what went wrong with its work.
func useComponent(t *T, c *fake.Cluster, name string, sec secCfg, mid func()) (created bool, err error) {
	pc := pconf(c)
	pc.Sasl, pc.TLSEnabled, pc.TLS = sec.sasl, sec.on, sec.tls
	pc.MessageMaxCount = 2
	pc.RetryBackOffMS = 5
	cc := cconf(c)
	cc.Sasl, cc.TLSEnabled, cc.TLS = sec.sasl, sec.on, sec.tls
	cc.FromBeginning = true
	cc.SessionTimeoutMS = 400
	cc.AutoCommitIntervalMS = 20
	// drain receives until n distinct messages came
	seen := map[string]bool{}
	stalled := ""
	drain := func(ch <-chan *healer.FullMessage, n int) error {
		dl := time.After(t.Limit(40 * time.Second))
		for len(seen) < n {
			select {
			case m := <-ch:
				if m.Error != nil {
					return m.Error
				}
				seen[fmt.Sprint(m.PartitionID, "/", m.Message.Offset)] = true
			case <-dl:
				stalled = fmt.Sprintf("%s received %d of %d messages", name, len(seen), n)
				return errors.New(stalled)
			}
		}
		return nil
	}
	t.Do(name, 110*time.Second, func() {
		switch name {
		case "brokers":
			bc := bconf()
			bc.Sasl, bc.TLSEnabled, bc.TLS = sec.sasl, sec.on, sec.tls
			var b *healer.Brokers
			if b, err = healer.NewBrokersWithConfig(c.Bootstrap(), bc); err != nil {
				return
			}
			created = true
			defer b.Close()
			round := func() {
				for id := range c.Nodes {
					err = tries(3, func() error {
						br, err := b.GetBroker(id)
						if err == nil {
							_, err = br.RequestListGroups("x")
						}
						return err
					})
					if err != nil {
						return
					}
				}
				if err = tries(3, func() error { _, e := b.RequestMetaData("x", []string{"t"}); return e }); err != nil {
					return
				}
				if err = tries(3, func() error { _, e := b.RequestOffsets("x", "t", 0, -1, 1); return e }); err != nil {
					return
				}
				err = tries(3, func() error { _, e := b.FindCoordinator("x", "g"); return e })
			}
			if round(); err != nil {
				return
			}
			mid()
			round()
		case "producer", "keyed producer":
			var p *healer.Producer
			if p, err = healer.NewProducer("t", pc); err != nil {
				return
			}
			created = true
			defer p.Close()
			var key []byte
			if name == "keyed producer" {
				key = []byte("k")
			}
			for half := 0; half < 2; half++ {
				for i := 0; i < 4; i++ {
					if err = tries(5, func() error { return p.AddMessage(key, []byte("v")) }); err != nil {
						return
					}
				}
				if half == 0 {
					mid()
				}
			}
		case "simple producer":
			var p *healer.SimpleProducer
			if p, err = healer.NewSimpleProducer(context.Background(), "t", 0, pc); err != nil {
				return
			}
			created = true
			defer p.Close()
			for half := 0; half < 2; half++ {
				for i := 0; i < 4; i++ {
					if err = tries(5, func() error { return p.AddMessage(nil, []byte("v")) }); err != nil {
						return
					}
				}
				if half == 0 {
					mid()
				}
			}
		case "consumer", "consumer with group":
			if name == "consumer with group" {
				cc.GroupID = "g"
			}
			var x *healer.Consumer
			if x, err = healer.NewConsumer(cc, "t"); err != nil {
				return
			}
			created = true
			defer x.AwaitClose(t.Limit(30 * time.Second))
			n := feed(c, 2)
			var ch <-chan *healer.FullMessage
			if ch, err = x.Consume(nil); err != nil {
				return
			}
			if err = drain(ch, n); err != nil {
				return
			}
			mid()
			n += feed(c, 2)
			err = drain(ch, n)
		case "simple consumer":
			cc.GroupID = "g"
			var x *healer.SimpleConsumer
			if x, err = healer.NewSimpleConsumer("t", 0, cc); err != nil {
				return
			}
			created = true
			defer x.Stop()
			feed(c, 2)
			var ch <-chan *healer.FullMessage
			if ch, err = x.Consume(-2, nil); err != nil {
				return
			}
			if err = drain(ch, 2); err != nil {
				return
			}
			mid()
			feed(c, 2)
			err = drain(ch, 4)
		case "group consumer":
			cc.GroupID = "g"
			var x *healer.GroupConsumer
			if x, err = healer.NewGroupConsumer("t", cc); err != nil {
				return
			}
			created = true
			defer x.AwaitClose(t.Limit(30 * time.Second))
			n := feed(c, 2)
			var ch <-chan *healer.FullMessage
			if ch, err = x.Consume(nil); err != nil {
				return
			}
			if err = drain(ch, n); err != nil {
				return
			}
			mid()
			n += feed(c, 2)
			err = drain(ch, n)
		}
	})
	if stalled != "" {
		t.Hang(name+" does not deliver", "%s", stalled)
	}
	return
}
