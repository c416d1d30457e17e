package core

import (
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

// Different types with the same name: types that print alike.

type (
	twinA struct{}
	twinB struct{}
	twinC struct{}
	twinD struct{}
)

func (twinA) Schema() string { return "veriftwinA" }
func (twinB) Schema() string { return "veriftwinB" }
func (twinC) Schema() string { return "veriftwinC" }
func (twinD) Schema() string { return "veriftwinD" }

func twins() []appdash.Event {
	return []appdash.Event{
		func() appdash.Event {
			type part struct {
				A int
				B string `trace:"X"`
			}
			type Shape struct {
				twinA
				Width  int
				Height float64 `trace:"H"`
				Part   part
			}
			return Shape{}
		}(),
		func() appdash.Event {
			type part struct {
				X bool
				A []string `trace:"B"`
			}
			type Shape struct {
				twinB
				Name  string
				Width time.Time `trace:"Height"`
				Part  part
			}
			return Shape{}
		}(),
		func() appdash.Event {
			type Shape struct {
				twinC
				Width int    `trace:"Height"`
				Depth string `trace:"Width"`
			}
			return Shape{}
		}(),
		func() appdash.Event {
			type Shape struct {
				twinD
				A, B, C, Width time.Duration
			}
			return Shape{}
		}(),
	}
}

func init() {
	for _, e := range twins() {
		userEvents = append(userEvents, e)
		appdash.RegisterEvent(e)
	}
}
