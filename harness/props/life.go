package props

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
)

// a live component: one round of work, a call that need not succeed, and its end

type live struct {
	name  string
	round func() error // must succeed on a healthy cluster
	poke  func()       // must return, whatever the cluster does
	close func()
}

type lifeCfg struct {
	prod healer.ProducerConfig
	cons healer.ConsumerConfig
	brok *healer.BrokerConfig
}

func lifeConf(c *fake.Cluster) lifeCfg {
	x := lifeCfg{prod: pconf(c), cons: cconf(c), brok: bconf()}
	x.prod.MessageMaxCount = 2
	x.prod.RetryBackOffMS = 5
	x.cons.FromBeginning = true
	x.cons.SessionTimeoutMS = 400
	x.cons.AutoCommitIntervalMS = 20
	return x
}

var lifeKinds = []string{"brokers", "client", "producer", "keyed producer", "simple producer", "consumer", "consumer with group", "simple consumer", "group consumer"}

// open creates a component of that kind for topic "t".
func (x lifeCfg) open(t *T, c *fake.Cluster, kind string) (*live, error) {
	l := &live{name: kind}
	big := func() []byte {
		b := make([]byte, 3<<20)
		for i := range b {
			b[i] = byte(i * 7)
		}
		return b
	}
	adder := func(add func(k, v []byte) error, key []byte) {
		l.round = func() error {
			for i := 0; i < 4; i++ {
				if err := tries(6, func() error { return add(key, []byte("v")) }); err != nil {
					return err
				}
			}
			return nil
		}
		l.poke = func() {
			add(key, big())
			add(key, big())
		}
	}
	seen := map[string]bool{}
	total := 0
	receiver := func(ch <-chan *healer.FullMessage, n int, feedAll func() int) {
		l.round = func() error {
			total += feedAll()
			dl := time.After(t.Limit(60 * time.Second))
			for len(seen) < total {
				select {
				case m := <-ch:
					if m.Error != nil {
						return m.Error
					}
					seen[fmt.Sprint(m.PartitionID, "/", m.Message.Offset)] = true
				case <-dl:
					return errStalled{fmt.Sprintf("%s received %d of %d messages", kind, len(seen), total)}
				}
			}
			return nil
		}
		l.poke = func() {}
	}
	switch kind {
	case "brokers", "client":
		var b *healer.Brokers
		var cl *healer.Client
		var err error
		if kind == "brokers" {
			if b, err = healer.NewBrokersWithConfig(c.Bootstrap(), x.brok); err != nil {
				return nil, err
			}
			l.close = b.Close
		} else {
			if cl, err = healer.NewClient(c.Bootstrap(), "x"); err != nil {
				return nil, err
			}
			l.close = cl.Close
		}
		calls := []func() error{}
		if b != nil {
			for id := range c.Nodes {
				calls = append(calls, func() error {
					br, err := b.GetBroker(id)
					if err == nil {
						_, err = br.RequestListGroups("x")
					}
					return err
				})
			}
			calls = append(calls, func() error { _, e := b.RequestMetaData("x", []string{"t"}); return e },
				func() error { _, e := b.RequestOffsets("x", "t", -1, -1, 1); return e },
				func() error { _, e := b.FindCoordinator("x", "g"); return e })
		} else {
			calls = append(calls, func() error { _, e := cl.ListGroups(); return e },
				func() error { _, e := cl.DescribeConfigs("topic", "t", nil); return e },
				func() error { _, e := cl.DescribeLogDirs([]string{"t"}); return e })
		}
		l.round = func() error {
			for _, f := range calls {
				if err := tries(4, f); err != nil {
					return err
				}
			}
			return nil
		}
		l.poke = func() {
			for _, f := range calls {
				f()
			}
		}
	case "producer", "keyed producer":
		p, err := healer.NewProducer("t", x.prod)
		if err != nil {
			return nil, err
		}
		l.close = p.Close
		if kind == "producer" {
			adder(p.AddMessage, nil)
		} else {
			adder(p.AddMessage, []byte("k"))
		}
	case "simple producer":
		p, err := healer.NewSimpleProducer(context.Background(), "t", 0, x.prod)
		if err != nil {
			return nil, err
		}
		l.close = p.Close
		adder(p.AddMessage, nil)
	case "consumer", "consumer with group":
		if kind == "consumer with group" {
			x.cons.GroupID = "g"
		}
		y, err := healer.NewConsumer(x.cons, "t")
		if err != nil {
			return nil, err
		}
		l.close = func() { y.AwaitClose(100 * time.Second) }
		ch, err := y.Consume(nil)
		if err != nil {
			return l, err
		}
		receiver(ch, 0, func() int { return feed(c, 2) })
	case "simple consumer":
		x.cons.GroupID = "g"
		y, err := healer.NewSimpleConsumer("t", 0, x.cons)
		if err != nil {
			return nil, err
		}
		l.close = y.Stop
		ch, err := y.Consume(-2, nil)
		if err != nil {
			return l, err
		}
		receiver(ch, 0, func() int { feed(c, 2); return 2 })
	case "group consumer":
		x.cons.GroupID = "g"
		y, err := healer.NewGroupConsumer("t", x.cons)
		if err != nil {
			return nil, err
		}
		l.close = func() { y.AwaitClose(100 * time.Second) }
		ch, err := y.Consume(nil)
		if err != nil {
			return l, err
		}
		receiver(ch, 0, func() int { return feed(c, 2) })
	default:
		panic("HARNESS: " + kind)
	}
	return l, nil
}

type errStalled struct{ s string }

func (e errStalled) Error() string { return e.s }

// judge turns the error of a round into a verdict.
func (l *live) judge(t *T, sig string, err error) {
	var st errStalled
	switch {
	case errors.As(err, &st):
		t.Hang(sig, "%v", err)
	case err != nil:
		t.Fatal(sig, "%s: %v", l.name, err)
	}
}
